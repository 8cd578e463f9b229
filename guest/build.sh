#!/bin/bash
# Builds the guest programs from /repo's SDK, or its example programs.
# Usage: build.sh TARGET_DIR [examples]
cd "$(dirname "$0")" || exit 2
mkdir -p "$1/cargo/.cargo"
# the repository's own build settings for guests, without the runner
cp -rp Cargo.toml Cargo.lock driver nostd sdk *-core *-vm "$1/cargo/" || exit 2
cp /repo/.cargo/*.json "$1/cargo/.cargo/" && grep -v "^runner" /repo/.cargo/config.toml | sed 's/^rustflags = \[/&"--cap-lints", "warn", /' > "$1/cargo/.cargo/config.toml" || exit 2
cd "$1/cargo" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2024-04-24 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$1"
if [ "$2" = examples ]; then
  cargo mozakvm-build -q --offline -p wallet-mozakvm -p token-mozakvm -p counter-mozakvm -p inputtape-mozakvm &&
    cargo mozakvm-build -q --offline -p empty-mozakvm -p bss-tester-mozakvm -p min-max-mozakvm -p static-mem-access-mozakvm -p memory-access-mozakvm -p vector-alloc-mozakvm -p panic-mozakvm -p fibonacci-mozakvm -p rkyv-serialization-mozakvm
else
  cargo mozakvm-build -q --offline -p driver && cargo mozakvm-build -q --offline -p nostd
fi
