#!/bin/bash
# usage: mutant.sh SLOT PATCH "PROP ..." [scale percent] [workers]
# Applies PATCH to a scratch copy of /repo, runs its tests and the checks of the
# given properties against that copy. For sensitivity experiments only.
slot=/tmp/mut/$1; patch=$2; props=$3; scale=${4:-100}; workers=${5:-8}
mkdir -p "$slot"
rm -rf "$slot/repo" "$slot/sim"
mkdir -p "$slot/repo" "$slot/sim"
(cd /repo && git archive HEAD) | tar -x -C "$slot/repo"
cp -a /verif/sim/. "$slot/sim/"
sed -i "s|/repo\"|$slot/repo\"|" "$slot/sim/Cargo.toml"
sed -i "s|/verif/target|$slot/target|" "$slot/sim/.cargo/config.toml"
cd "$slot/repo" && git init -q . 2>/dev/null
if ! git apply "$patch"; then echo "RESULT $patch does-not-apply"; exit 2; fi
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cp /repo/Cargo.lock "$slot/repo/" 2>/dev/null
if [ -z "$NOTEST" ]; then
CARGO_TARGET_DIR=$slot/ttarget timeout 120 cargo test --offline --workspace > "$slot/test.log" 2>&1
n=$(grep -E "^test .* ok$" "$slot/test.log" | wc -l)
if grep -qE "^error|could not compile" "$slot/test.log"; then
  if grep -q "could not compile" "$slot/test.log"; then echo "RESULT $patch does-not-compile"; exit 0; fi
fi
if [ "$n" -lt 39 ]; then echo "RESULT $patch tests-fail ($n)"; exit 0; fi
fi
cd "$slot/sim" && cargo build --release --offline > "$slot/build.log" 2>&1 || { echo "RESULT $patch sim-build-fails"; exit 2; }
case "$props" in *C01*) cargo build --profile shipped --features unchecked --offline >> "$slot/build.log" 2>&1;; esac
case "$props" in *T01*) for b in race statics; do SIM_BUILD=$b RUSTC_WRAPPER=/verif/tools/race-rustc.sh cargo build --profile $b --features $b --offline >> "$slot/build.log" 2>&1 || { echo "RESULT $patch sim-build-fails"; exit 2; }; done;; esac
caught=""
for p in $props; do
  SIM_VERIF=$slot SIM_SCALE=$scale timeout 600 "$slot/target/$([ $p = T01 ] && echo race || echo release)/sim" check $p --tier quick --workers "$workers" > "$slot/$p.log" 2>&1
  rc=$?
  if [ $rc = 1 ]; then caught="$caught $p"; [ -n "$STOP" ] && break; elif [ $rc != 0 ]; then caught="$caught $p(rc$rc)"; fi
done
echo "RESULT $patch caught:$caught"
