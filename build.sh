#!/bin/bash
# Builds the simulator from /repo's working tree. Usage: build.sh [race]...
set -u
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$BUILD_DIR" || exit 2
exec 9>"$BUILD_DIR/lock"; flock 9
(cd "$VERIF_DIR/tools/mkoverlay" && go build -o "$BUILD_DIR/mkoverlay" .) || exit 2
"$BUILD_DIR/mkoverlay" -goroot "$GOROOT" -repo "$REPO_DIR" -verif "$VERIF_DIR" -out "$BUILD_DIR/overlay" || exit 2
cp "$REPO_DIR/go.mod" "$BUILD_DIR/testkit.mod" && cp "$REPO_DIR/go.sum" "$BUILD_DIR/testkit.sum" || exit 2
cd "$REPO_DIR" || exit 2
for v in "$@"; do
  race=; [ "$v" = race ] && race=-race
  go build $race -mod=mod -modfile="$BUILD_DIR/testkit.mod" -overlay "$BUILD_DIR/overlay/overlay.json" \
    -o "$BUILD_DIR/sim-$v" ./internal/verifsim || exit 2
done
