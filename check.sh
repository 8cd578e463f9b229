#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]   -- decides one property on /repo's working tree
# check.sh --build                       -- builds everything
# Exit: 0 held, 1 violation (with a VIOLATION line), other: the check itself failed.
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$V"
[ -n "$2" ] && export VERIF_TIER="$2"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN
export CARGO_TARGET_DIR="$V/harness/target" CARGO_TERM_COLOR=never
"$V/tools/vendor.sh" || exit 2
cd "$V/harness" || exit 2
mkdir -p target
exec 9>target/.verif-lock
flock 9
# cargo notices changes by time stamp; a tree that was put in place with old
# time stamps is noticed by content.
h=$( (cd /repo && find runner sdk circuits expr recproofs node cli signatures examples wasm-demo -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 2>/dev/null | sort -z | xargs -0 sha256sum; find "$V/shims" "$V/harness" "$V/guest" -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.verif-hash 2>/dev/null)" != "$h" ]; then
  # forget only what is built from /repo or /verif
  find target/release/.fingerprint -maxdepth 1 -type d \( -name 'mozak-*' -o -name '*-mc-*' -o -name 'mc-*' -o -name 'plonky2-*' -o -name 'starky-*' -o -name 'expr-*' -o -name 'recproofs-*' -o -name 'plonky2_maybe_rayon-*' -o -name 'tt-call-*' -o -name 'enumflags2*' -o -name 'iter_fixed-*' -o -name 'tested-fixture-*' -o -name '*-core-logic-*' \) -exec rm -rf {} + 2>/dev/null
  [ -d "$V/guest/target" ] && find "$V/guest/target" -type d -path '*/.fingerprint/*' \( -name 'mozak-*' -o -name 'driver-*' -o -name 'nostd-*' -o -name '*-mozakvm-*' -o -name '*-core-logic-*' \) -prune -exec rm -rf {} + 2>/dev/null
  echo "$h" > target/.verif-hash
fi
build() { cargo build --release --offline --locked -q "$@" 2>target/.build.log || { tail -60 target/.build.log >&2; echo "check: build failed" >&2; exit 3; }; }
G="$V/guest/target/riscv32im-mozak-mozakvm-elf/mozak-release"
guests() { "$V/guest/build.sh" "$V/guest/target" $1 2>target/.guest.log || { tail -60 target/.guest.log >&2; echo "check: building the guests failed" >&2; exit 3; }; }
case "$1" in
  --build)
    # one part that does not build fails its own checks, not the others
    for p in runner-mc sdk-mc circuits-mc node-mc cli-mc examples-mc; do ( build -p $p ); done
    ( guests ); ( guests examples ); exit 0;;
  R*) bin=runner-mc;;
  K*) bin=sdk-mc;;
  S*) bin=circuits-mc;;
  N*) bin=node-mc;;
  C*) bin=cli-mc;;
  E*) bin=examples-mc;;
  *) echo "unknown property $1" >&2; exit 2;;
esac
build -p "$bin"
if [ $bin = sdk-mc ]; then
  guests
  export GUEST_DIR="$V/harness/target/.guests-$$"
  mkdir -p "$GUEST_DIR" && cp "$G/driver" "$G/nostd" "$GUEST_DIR/" || exit 3
fi
if [ $bin = examples-mc ]; then
  guests examples
  export GUEST_DIR="$V/harness/target/.guests-$$"
  mkdir -p "$GUEST_DIR" && cp "$G"/*-mozakvm "$GUEST_DIR/" || exit 3
fi
cp "target/release/$bin" "target/.run-$bin-$$"
flock -u 9
"target/.run-$bin-$$" "$1"
rc=$?
rm -rf "$V/harness/target/.run-$bin-$$" "$V/harness/target/.guests-$$"
exit $rc
