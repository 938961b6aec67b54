#!/bin/bash
# Builds all checks once, so that each of them only rebuilds what changed.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/mc/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays" "$here/scratch"
cd "$here/mc" || exit 2
cargo build --offline --release -q --bins || exit 2
stamp="$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)"
printf '%s\n' "$stamp" > "$CARGO_TARGET_DIR/.repo-stamp"
export CARGO_TARGET_DIR="$here/mt/target" RUSTC_WRAPPER="$here/mt/wrap.sh"
mkdir -p "$CARGO_TARGET_DIR"
cd "$here/mt" || exit 2
cargo build --offline --release -q --bins || echo "C25 and C28 will explore with larger steps" >&2
printf '%s\n' "$stamp" > "$CARGO_TARGET_DIR/.repo-stamp"
exit 0
