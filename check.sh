#!/bin/bash
# Decides one property. Usage: check.sh PROPERTY quick|thorough
#
# Exits with 0 if the property held in every run, 1 (and a VIOLATION line) if
# it did not, and 2 if the question could not be answered.
set -u
dir="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"; tier="${2:-quick}"
seed="${VERIF_SEED:-1}"
. "$dir/counts.sh"
bash "$dir/build.sh" plain $([ "$raceruns" != 0 ] && echo race) || { echo "check.sh: the simulator could not be built" >&2; exit 2; }
args=()
[ "$raceruns" != 0 ] && args=(-race "$dir/.build/sim-race" -raceruns "$raceruns")
exec "$dir/.build/sim-plain" -prop "$prop" -tier "$tier" -seed "$seed" -runs "$runs" -cap "$cap" \
  -out "$dir/evidence" -known "$dir/KNOWN_FINDINGS.txt" -sites "$dir/.build/overlay/sites.txt" "${args[@]}"
