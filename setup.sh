#!/bin/bash
# Builds the explorer from the committed files, offline.
set -eu
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
cargo build --release --offline --manifest-path /verif/harness/Cargo.toml
bash /verif/python.sh
mkdir -p evidence replays
