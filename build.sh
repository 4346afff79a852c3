#!/bin/bash
# Builds the simulator together with /repo's current working tree.
set -u
cd "$(dirname "$0")/harness" || exit 2
here=$PWD
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER="$PWD/wrapper.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
# cargo goes by modification times; a copied or checked-out tree can have any
stamp=$( (cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; cat "$RUSTC_WRAPPER"; find "$here" -path "$here/target" -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
mkdir -p target
exec 9>target/.lock; flock 9
if [ "$(cat target/.stamp 2>/dev/null)" != "$stamp" ] || [ ! -x target/debug/rsim ]; then
  rm -f target/.stamp
  [ -d target/debug ] && cargo clean --offline -q -p redox-ecc -p rsim -p simrt -p model 2>/dev/null
  if ! cargo build --offline -q 2>target/.build.log; then
    grep -E '^(error|warning: unused)' -A8 target/.build.log | head -60
    echo "HARNESS ERROR: the simulator does not build against /repo"
    exit 2
  fi
  echo "$stamp" > target/.stamp
fi
