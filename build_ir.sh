#!/bin/bash
# build_ir.sh FEATURE OUT.ll : compile harness FEATURE + nondestructive (from /repo's working
# tree) + std + dependencies into one LLVM module, reduced to what the entry reaches.
set -e
F=$1; OUT=$2
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS
export CARGO_TARGET_DIR=$HERE/work/sym-$F
SYS=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
cd "$HERE/harness/sym"
# never trust time stamps: whatever comes from /repo or from the harness is compiled anew
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/{harness,nondestructive}-*
rm -f "$CARGO_TARGET_DIR"/release/deps/*{harness,nondestructive}-*
cargo rustc --quiet --offline --release --lib --features "$F" -- --emit=llvm-bc -C save-temps -C no-vectorize-loops -C no-vectorize-slp
BC=$(ls -S "$CARGO_TARGET_DIR"/release/deps/harness-*.bc | grep -v rcgu | head -1)
"$SYS/opt" -passes='internalize,globaldce,strip-dead-prototypes' -strip-debug --internalize-public-api-list="h_$F" "$BC" -o "$OUT.bc"
"$SYS/llvm-dis" "$OUT.bc" -o "$OUT"
rm -f "$OUT.bc"
