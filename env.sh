# Sourced by the build: the toolchain, caches and module file the simulator uses.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO_DIR=/repo
BUILD_DIR="$VERIF_DIR/.build"
export HOME=${HOME:-/root}
export GOROOT=/opt/veriftools/go1.25.14
export PATH="$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS= GOTELEMETRY=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="$BUILD_DIR/gocache"
