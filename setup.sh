#!/bin/bash
# Builds the harness (and with it /repo's crates) from the current working tree.
set -u
VERIF_DIR="${VERIF_DIR:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export VERIF_DIR
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
T="$VERIF_DIR/target"
mkdir -p "$T" || exit 2
# cargo goes by time stamps, which copies of the tree may not keep: go by content instead
H=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.pest' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
(
  flock 9
  if [ "$(cat "$T/repo.hash" 2>/dev/null)" != "$H" ] || [ ! -x "$T/debug/ocav" ]; then
    rm -f "$T/repo.hash"
    rm -rf "$T"/debug/.fingerprint/oca-* "$T"/debug/.fingerprint/oca_* "$T"/debug/.fingerprint/transformation* "$T"/debug/.fingerprint/ocav-*
  fi
  cd "$VERIF_DIR/harness" && cargo build --offline --locked --target-dir "$T" >"$T/build.log" 2>&1 || { tail -40 "$T/build.log"; exit 2; }
  echo "$H" >"$T/repo.hash"
) 9>"$T/lock" || { echo "build failed"; exit 2; }
