#!/bin/bash
# overlay.sh VERIF REPO bridge|nobridge: the overlay JSON which adds the harness to the module
V=$1 R=$2
printf '{"Replace":{'
sep=
while IFS= read -r f; do
  rel=${f#"$V"/mc/}
  printf '%s"%s/internal/verifmc/%s":"%s"' "$sep" "$R" "$rel" "$f"; sep=,
done < <(find "$V/mc" -name '*.go' ! -path '*/bridge/*' ! -name '*_test.go' | sort)
if [ "$3" = bridge ]; then
  printf '%s"%s/zz_verif_bridge.go":"%s/mc/bridge/bridge.go"' "$sep" "$R" "$V"
fi
printf '}}\n'
