#!/bin/bash
# frontend.sh OUTDIR : compiles /repo's current tree with the driver and writes MIR dumps
# CT_DA=on|off: debug assertions (on for the panic checks; off otherwise, so that no guard that only exists in debug builds is relied on)
set -e
R=${CT_REPO:-/repo}
OUT=$1; V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$OUT"
SYS=$(rustc +nightly --print sysroot)
DRV=${CT_DRIVER:-$V/target/ct-driver}
F="--edition 2021 -Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=${CT_DA:-off} -Coverflow-checks=on -Cpanic=unwind --cap-lints allow -Awarnings"
cd "$OUT"
rustc +nightly --crate-name compact_thrift_runtime --crate-type rlib $F --emit=metadata,link $R/runtime/src/lib.rs --out-dir "$OUT"
rustc +nightly --crate-name compact_thrift_parquet --crate-type rlib $F --emit=metadata,link --extern compact_thrift_runtime=$OUT/libcompact_thrift_runtime.rlib -L $OUT $R/parquet/src/lib.rs --out-dir "$OUT"
export LD_LIBRARY_PATH=$SYS/lib
CT_CRATE=ct_harness CT_ROOTS=mod:roots CT_OUT=$OUT/lib.json $DRV --crate-name ct_harness --crate-type rlib $F --sysroot $SYS --extern compact_thrift_runtime=$OUT/libcompact_thrift_runtime.rlib --extern compact_thrift_parquet=$OUT/libcompact_thrift_parquet.rlib -L $OUT $V/harness/src/lib.rs --emit=metadata --out-dir "$OUT"
printf '#![feature(try_trait_v2)]\n#![allow(dead_code)]\n#[path = "%s"]\npub mod models;\n#[path = "%s"]\npub mod schema;\n' "$V/harness/src/models.rs" "$R/parquet/src/bin/schema.rs" > "$OUT/ct_schema.rs"
CT_CRATE=ct_schema CT_ROOTS=mod:schema CT_OUT=$OUT/schema.json $DRV --crate-name ct_schema --crate-type rlib $F --sysroot $SYS --extern compact_thrift_runtime=$OUT/libcompact_thrift_runtime.rlib --extern compact_thrift_parquet=$OUT/libcompact_thrift_parquet.rlib -L $OUT "$OUT/ct_schema.rs" --emit=metadata --out-dir "$OUT"
