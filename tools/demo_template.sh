#!/bin/bash
# Builds the sources of the crate CRATE together with demo.rs (as an extra test module) in a scratch
# directory and runs that module: exit 0 if the demonstrated behaviour is right.
CRATE=@CRATE@   # crate
AT=@AT@   # file of the crate that gets the demo as a child module
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp -r "$CRATE/src" "$w/src" && cp "$here/demo.rs" "$w/src/vp_demo.rs" || exit 3
printf "\n#[cfg(test)]\n#[path = \"%s\"]\nmod vp_demo;\n" "$w/src/vp_demo.rs" >> "$w/$AT"
deps=$PWD/target/debug/deps
ext=()
for c in poulpy_hal poulpy_core poulpy_cpu_avx poulpy_cpu_ref poulpy_schemes rand_core strum strum_macros paste itertools elf tqdm num_cpus fhevm criterion plotters; do
    [ "$c" = "$CRATE" ] && continue
    for f in $(ls -t "$deps"/lib$c-*.rlib "$deps"/lib$c-*.so 2>/dev/null | head -1); do ext+=(--extern "$c=$f"); done
done
CARGO_MANIFEST_DIR=$PWD/$CRATE rustc --edition 2021 --test --crate-name "$CRATE" --cap-lints allow -C opt-level=@OPT@ -C debug-assertions=on \
    -C target-feature=+avx2,+fma -L dependency="$deps" "${ext[@]}" -o "$w/t" "$w/src/lib.rs" || exit 3
(ulimit -s unlimited 2>/dev/null; timeout 250 "$w/t" vp_demo --test-threads 1)
