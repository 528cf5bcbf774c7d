#!/bin/bash
# c04.sh VERIF REPO WORK OUT [norace]: build the harness with package sync of the module (and of its LRU cache) replaced by
# the scheduler's, with the race detector unless told otherwise.
V=$1 R=$2 W=$3 OUT=$4
mkdir -p "$W/src" || exit 1
rewrite() {
  sed -E \
    -e 's,^([[:space:]]*(import[[:space:]]+)?)"sync"([[:space:]]*(//.*)?)$,\1sync "verif.local/sched/vsync"\3,' \
    -e 's,^([[:space:]]*(import[[:space:]]+)?)"sync/atomic"([[:space:]]*(//.*)?)$,\1atomic "verif.local/sched/vatomic"\3,' \
    -e 's,^([[:space:]]*(import[[:space:]]+)?[A-Za-z_.][A-Za-z0-9_]*[[:space:]]+)"sync"([[:space:]]*(//.*)?)$,\1"verif.local/sched/vsync"\3,' \
    -e 's,^([[:space:]]*(import[[:space:]]+)?[A-Za-z_.][A-Za-z0-9_]*[[:space:]]+)"sync/atomic"([[:space:]]*(//.*)?)$,\1"verif.local/sched/vatomic"\3,'
}
ents() { # overlay entries of the rewritten files
  (cd "$R" && grep -rlE --include='*.go' '"sync(/atomic)?"' . | grep -v '_test\.go$' | sed 's,^\./,,' | grep -vE '^internal/verifmc/') | while IFS= read -r f; do
    mkdir -p "$W/src/$(dirname "$f")"
    rewrite < "$R/$f" > "$W/src/$f"
    printf ',"%s/%s":"%s/src/%s"' "$R" "$f" "$W" "$f"
  done
}
cp "$R/go.mod" "$W/sched.mod" && cp "$R/go.sum" "$W/sched.sum" || exit 1
printf '\nrequire verif.local/sched v0.0.0\n\nreplace verif.local/sched => %s/sched\n' "$V" >> "$W/sched.mod"
# the LRU cache is shared between archives too: use a copy
lru=$(cd "$R" && go list -m -f '{{.Dir}}' github.com/hashicorp/golang-lru/v2 2>/dev/null)
if [ -n "$lru" ] && [ -d "$lru" ]; then
  mkdir -p "$W/lru" && cp -r "$lru/." "$W/lru/" && chmod -R u+w "$W/lru" && find "$W/lru" -name '*_test.go' -delete
  find "$W/lru" -name '*.go' | while IFS= read -r f; do rewrite < "$f" > "$f.new" && mv "$f.new" "$f"; done
  printf '\nreplace github.com/hashicorp/golang-lru/v2 => %s/lru\n' "$W" >> "$W/sched.mod"
fi
race=-race
[ "${5:-}" = norace ] && race=
try() { # rewritten(1/0) bridge|nobridge
  { "$V/tools/overlay.sh" "$V" "$R" "$2" | sed 's/}}$//'; [ "$1" = 1 ] && ents; printf '}}\n'; } > "$W/sched.json"
  local tags=sched opt
  [ "$2" = nobridge ] && tags=sched,nobridge
  for opt in $race ""; do
    if (cd "$R" && go build $opt "-modfile=$W/sched.mod" -tags $tags -overlay "$W/sched.json" -o "$OUT" ./internal/verifmc) 2> "$W/build.err"; then
      [ "$opt$1$2" = "${race}1bridge" ] || { cat "$W/first.err" >&2; echo "note: built with $2 $opt, rewritten=$1" >&2; }
      exit 0
    fi
    [ -f "$W/first.err" ] || cp "$W/build.err" "$W/first.err"
  done
}
try 1 bridge
try 1 nobridge
try 0 bridge   # scheduling points only where the harness is called
try 0 nobridge
cat "$W/first.err" >&2
exit 1
