# Numbers of runs for $prop and $tier.
raceruns=0
case "$prop" in
  C01) runs=120000; raceruns=16000 ;;
  C11) runs=120000; raceruns=16000 ;;
  C19) runs=200000; raceruns=32000 ;;
  C22|C23) runs=400000; raceruns=80000 ;;
  C25) runs=100000; raceruns=16000 ;;
  C08) runs=100000 ;;
  C07) runs=140000 ;;
  C06) runs=160000 ;;
  *) runs=200000 ;;
esac
cap=4m
if [ "$tier" = thorough ]; then
  runs=$((runs * 20)); raceruns=$((raceruns * 20)); cap=60m
fi
