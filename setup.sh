#!/bin/bash
# builds all configurations of the simulator, offline
set -e
cd /verif/sim
cargo build --offline --locked --release
cargo build --offline --locked --profile shipped --features unchecked
for b in race statics; do
    SIM_BUILD=$b RUSTC_WRAPPER=/verif/tools/race-rustc.sh cargo build --offline --locked --profile $b --features $b
done
