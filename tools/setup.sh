#!/bin/bash
# build the replayer once (also shows that the toolchains are there)
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true
(cd harness && CARGO_TARGET_DIR=$PWD/target/cfg_default cargo build --offline --locked -q) || exit 1
(cd macros && CARGO_TARGET_DIR=$PWD/target/cfg_default cargo build --offline --locked -q -p neure) || exit 1
java -version 2>/dev/null || exit 1
python3 -c 'import json' || exit 1
exit 0
