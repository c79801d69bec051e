#!/bin/bash
# Usage: run.sh PROPERTY [quick|thorough] [extra harness flags...]
# Builds the harness from /repo's current working tree (nothing in /repo is written) and runs one check.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="${1:?property id}"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift || true
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
export VERIF_SEED="${VERIF_SEED:-1}"
W="$(mktemp -d /tmp/verifbuild.XXXXXX)" || exit 2
trap 'rm -rf "$W"' EXIT
cd "$HERE/mc" || exit 2
# the module files may be rewritten by -mod=mod, so work on copies
cp go.mod "$W/go.mod" && cp go.sum "$W/go.sum" || exit 2
build() { # $1: -rewrite flag
  rm -rf "$W/ov"; mkdir -p "$W/ov"
  "$W/mkoverlay" -out "$W/ov" -src "$HERE/mc/overlaysrc" -rewrite="$1" || return 1
  go build -modfile "$W/go.mod" -overlay "$W/ov/overlay.json" -o "$W/mc" . || return 1
}
go build -modfile "$W/go.mod" -o "$W/mkoverlay" ./mkoverlay || { echo "cannot build mkoverlay"; exit 2; }
build true || build false || { echo "cannot build the harness against /repo"; exit 2; }
case "$ID" in
 C22) go build -race -gcflags=github.com/patrickbr/gtfstidy/verifsched=-race=false -modfile "$W/go.mod" -overlay "$W/ov/overlay.json" -o "$W/mc.race" . || { echo "cannot build the race detector harness"; exit 2; }; export VERIF_RACE="$W/mc.race";;
 *) (cd /repo && go build -o "$W/gtfstidy" .) || { echo "cannot build gtfstidy"; exit 2; };;
esac
export VERIF_GTFSTIDY="$W/gtfstidy"
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
"$W/mc" -verif "$HERE" -prop "$ID" -tier "$TIER" -mode "$(cat "$W/ov/mode")" "$@"
