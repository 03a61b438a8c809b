#!/bin/bash
# build.sh [ID...]: builds the checks (all without arguments), linking /repo's crate from its current
# working tree, offline. Two builds of each: all features with debug assertions and overflow checks, and
# what a user's release build is (no assertions, wrapping arithmetic) with the crate's default features
# where the property's functions exist there.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/usr/local/bin:/usr/bin:/bin:$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64 -A warnings" CARGO_TARGET_DIR="$here/mc/target"
mkdir -p "$here/mc/target"
exec 9>"$here/mc/target/.lock"
flock 9
set -e
cd "$here/mc"
[ $# -gt 0 ] || set -- $(cd src/bin && ls c??.rs | sed 's/\.rs//')
all=(); std=(); def=()
for i in "$@"; do
  i="${i,,}"
  all+=(--bin "$i")
  case "$i" in
    c13|c14|c21|c24|c25|c26) std+=(--bin "$i") ;;
    *) def+=(--bin "$i") ;;
  esac
done
cargo build --release --offline "${all[@]}"
[ ${#std[@]} -eq 0 ] || cargo build --profile plain --offline "${std[@]}"
[ ${#def[@]} -eq 0 ] || cargo build --profile plain --no-default-features --offline "${def[@]}"
