#!/bin/bash
# plant.sh ID [--check]: validate /verif/seeded/ID in a scratch copy of /repo (build, stable tests, demo both ways)
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/plant-work
[ -d $W/repo ] || { mkdir -p $W; cp -a /repo $W/repo; }
rsync -a --delete --exclude /target --exclude .git /repo/ $W/repo/ 2>/dev/null || { rm -rf $W/repo; cp -a /repo $W/repo; }
cd $W/repo && patch -p1 -s --dry-run < $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
export RUSTUP_TOOLCHAIN=1.82.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cp -r $S /tmp/plant-work/demo.$$; D=/tmp/plant-work/demo.$$
b() { touch src/lib.rs csvp/src/lib.rs; cargo build --offline --workspace >/tmp/plant-work/build.log 2>&1 || { echo BUILD FAILS; tail -20 /tmp/plant-work/build.log; exit 1; }; }
b; bash $D/demo.sh >/tmp/plant-work/demo0.log 2>&1; echo "demo clean: $?"
patch -p1 -s < $S/patch.diff
b; bash $D/demo.sh >/tmp/plant-work/demo1.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/plant-work/demo1.log
cargo test --offline --workspace --no-fail-fast >/tmp/plant-work/test.log 2>&1; echo "tests: $? $(grep -E '^test result' /tmp/plant-work/test.log | awk '{p+=$4;f+=$6}END{print p,f}')"; grep -E '^test .*FAILED' /tmp/plant-work/test.log
rm -rf $D
rsync -a --delete --exclude /target --exclude .git /repo/ $W/repo/
