#!/bin/bash
# coverage.sh DIR [ID...]: which lines of /repo the quick tiers execute (report in DIR); DIR is scratch.
set -u
D="$1"; shift
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
L=$(echo /root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/*/bin)
mkdir -p "$D"
(cd /verif/harness && LLVM_PROFILE_FILE=/dev/null RUSTFLAGS="-C instrument-coverage" cargo build --offline --locked --target-dir "$D/t" >"$D/build.log" 2>&1) || { tail -5 "$D/build.log"; exit 2; }
export LLVM_PROFILE_FILE="$D/p/%p-%m.profraw" VERIF_DIR="$D/v"
mkdir -p "$D/p" "$D/v/target"; cp /verif/known_findings.json "$D/v/"
for i in "$@"; do "$D/t/debug/ocav" check $i | head -1; done
"$L/llvm-profdata" merge --failure-mode=all -sparse "$D"/p/*.profraw -o "$D/all.profdata"
"$L/llvm-cov" report "$D/t/debug/ocav" -instr-profile="$D/all.profdata" --ignore-filename-regex='registry|rustc|/verif/' >"$D/report.txt" 2>/dev/null
"$L/llvm-cov" show "$D/t/debug/ocav" -instr-profile="$D/all.profdata" --ignore-filename-regex='registry|rustc|/verif/' --show-line-counts >"$D/lines.txt" 2>/dev/null
