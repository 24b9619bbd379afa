#!/bin/bash
# dev helper: build harness -> IR (in /tmp/hb)
set -e
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p /tmp/hb; cd /verif/harness
RUSTFLAGS="--cfg jsparse_verif" CARGO_TARGET_DIR=/tmp/hb/target cargo rustc --offline --release -- -C save-temps >/tmp/hb/cargo.log 2>&1 || { grep -E "^error" -A9 /tmp/hb/cargo.log | head -60; exit 1; }
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
D=/tmp/hb/target/release; BC=$(ls -t $D/deps/*lto.after-restriction.bc | head -1)
API=$($D/harness | tr '\n' ',' | sed 's/,$//')
$B/opt -strip-debug -passes='internalize,globaldce,function(lower-invoke,simplifycfg,scalarizer<load-store>,instsimplify),globaldce' -internalize-public-api-list=$API $BC -S -o /tmp/hb/m.ll
ls -la /tmp/hb/m.ll
