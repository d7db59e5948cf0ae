#!/bin/bash
# IR of the functions of core and alloc that rustc does not give with the crates
# that call them; to be made again with another rustc (see version)
cd "$(dirname "$0")" || exit 2
export RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=stable
L=$(rustc --print sysroot)/lib/rustlib/src/rust/library
T=$(mktemp -d)
for c in core alloc; do
    rustc --crate-name $c --edition 2024 --crate-type rlib $L/$c/src/lib.rs -Copt-level=2 -Cpanic=abort -Cno-vectorize-loops \
        -Cno-vectorize-slp -Ccodegen-units=1 -Csymbol-mangling-version=v0 -Zforce-unstable-if-unmarked --cap-lints allow \
        --emit=llvm-ir --out-dir "$T" || exit 1
    xz -9e < "$T/$c.ll" > $c.ll.xz
done
rustc -vV | head -1 > version
rm -r "$T"
