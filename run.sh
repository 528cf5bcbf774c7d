#!/bin/bash
# run.sh <ID> [tier]        explore property ID against /repo's current working tree
# run.sh replay <file>      replay a recorded violation
# run.sh bin <out>          just build the harness
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
export VERIF_REPO=$R
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=readonly
W=$(mktemp -d /tmp/verifmc.XXXXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
build() { # out
  "$V/tools/overlay.sh" "$V" "$R" bridge > "$W/overlay.json" || return 1
  if ! (cd "$R" && go build -overlay "$W/overlay.json" -o "$1" ./internal/verifmc) 2> "$W/build.err"; then
    # the in-package bridge may not fit a refactored tree: go without it
    "$V/tools/overlay.sh" "$V" "$R" nobridge > "$W/overlay.json" || return 1
    (cd "$R" && go build -tags nobridge -overlay "$W/overlay.json" -o "$1" ./internal/verifmc) || return 1
    cat "$W/build.err" >&2
    echo "note: built without the in-package bridge" >&2
  fi
}
case "${1:-}" in
  bin) build "$2"; exit ;;
  replay)
    ID=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
    set -- "$ID" replay "$2" ;;
esac
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
case $ID in
  C04) build() { "$V/tools/c04.sh" "$V" "$R" "$W" "$1"; } ;;
  C16) eval "plain_$(declare -f build)"
    build() { "$V/tools/c04.sh" "$V" "$R" "$W" "$1" norace || plain_build "$1"; } ;;
esac
build "$W/mc" || { echo "harness build failed" >&2; exit 3; }
if [ "$TIER" = replay ]; then
  "$W/mc" -work "$W" -verif "$V" -replay "$3"; exit
fi
"$W/mc" -prop "$ID" -tier "$TIER" -work "$W" -verif "$V" -seed "${VERIF_SEED:-1}" ${VERIF_MAX:+-max $VERIF_MAX}
