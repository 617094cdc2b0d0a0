#!/bin/bash
# Builds the Python extension module from /repo's working tree.
set -eu
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/py
cargo build --release --offline -p py-rspolib --manifest-path /repo/Cargo.toml
mkdir -p /verif/target/py/mod
cp /verif/target/py/release/librspolib.so /verif/target/py/mod/rspolib.so.new
mv /verif/target/py/mod/rspolib.so.new /verif/target/py/mod/rspolib.so
