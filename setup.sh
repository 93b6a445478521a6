#!/bin/bash
# builds the harness once, offline
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/harness/target"
cd "$here/harness" && cargo build --offline --locked
