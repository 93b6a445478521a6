#!/bin/bash
# usage: check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--cases N] [--seed N]
# Builds the harness against /repo's current working tree and runs one property's check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/harness/target"
repo=/repo
# cargo decides by modification time; force a rebuild of hyper whenever the content differs
stamp="$CARGO_TARGET_DIR/.repo-stamp"
mkdir -p "$CARGO_TARGET_DIR"
(
  flock 9
  now="$(cd "$repo" && { find src capi -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum | cut -d' ' -f1)"
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    (cd "$here/harness" && cargo clean --offline -p hyper >/dev/null 2>&1)
    echo "$now" > "$stamp"
  fi
  log="$CARGO_TARGET_DIR/build.log"
  if ! (cd "$here/harness" && cargo build --offline --locked >"$log" 2>&1); then
    echo "ERROR: the harness does not build against $repo" >&2
    grep -E -A6 '^error' "$log" | head -60 >&2
    rm -f "$stamp"
    exit 2
  fi
) 9>"$CARGO_TARGET_DIR/.lock" || exit 2
exec "$CARGO_TARGET_DIR/debug/harness" "$@" --verif "$here"
