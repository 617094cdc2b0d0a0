#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the explorer against /repo's working tree and decides one property.
set -u
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
log=$(mktemp)
if ! cargo build --release --offline --manifest-path /verif/harness/Cargo.toml >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "error: the explorer does not build against this tree"
    exit 2
fi
if [ "$1" = C19 ] && ! bash /verif/python.sh >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "error: the extension module does not build from this tree"
    exit 2
fi
rm -f "$log"
exec /verif/target/release/mc check "$1" "$2"
