#!/bin/bash
# Builds /verif/vendor (a cargo directory source) from the .crate archives in the
# offline cargo caches.  Idempotent; touches nothing outside /verif/vendor.
set -e -o pipefail
V=$(cd "$(dirname "$0")/.." && pwd)
stamp=$(sha256sum "$V/tools/vendor.list" | cut -d' ' -f1)
[ -f "$V/vendor/.stamp" ] && [ "$(cat "$V/vendor/.stamp")" = "$stamp" ] && exit 0
T="$V/vendor.tmp.$$"
mkdir -p "$T"
CACHE=${CARGO_HOME:-$HOME/.cargo}/registry/cache
while read -r c; do
  [ -z "$c" ] && continue
  f=$(ls "$CACHE"/*/"$c".crate 2>/dev/null | head -1)
  [ -n "$f" ] || { echo "missing $c.crate in the cargo caches" >&2; exit 2; }
  tar xzf "$f" -C "$T"
  printf '{"files":{},"package":"%s"}' "$(sha256sum "$f" | cut -d' ' -f1)" > "$T/$c/.cargo-checksum.json"
done < "$V/tools/vendor.list"
echo "$stamp" > "$T/.stamp"
rm -rf "$V/vendor"
mv "$T" "$V/vendor"
