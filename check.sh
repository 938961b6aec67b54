#!/bin/bash
# usage: check.sh <property id> [--replay group:index]
# Builds the check of one property against /repo's working tree and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
bin="$(printf '%s' "$id" | tr 'A-Z' 'a-z')"
. /opt/vp/env.sh
export MC_VERIF="$here"
export CARGO_TARGET_DIR="$here/mc/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
rm -f "$here/evidence/$id.json"
cd "$here/mc" || exit 2
# never trust time stamps alone: rebuild the crate under test whenever its sources differ
fresh() {
  stamp="$( (cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)"
  if [ "$(cat "$CARGO_TARGET_DIR/.repo-stamp" 2>/dev/null)" != "$stamp" ]; then
    cargo clean --offline -q -p renplex --release 2>/dev/null
    printf '%s\n' "$stamp" > "$CARGO_TARGET_DIR/.repo-stamp"
  fi
}
build() { cargo build --offline --release -q --bin "$1" > "$here/replays/build-$1.log" 2>&1; }
if [ "$bin" = c25 ] || [ "$bin" = c28 ]; then
  # single memory accesses as steps, when the crate can be compiled so that it announces them
  export CARGO_TARGET_DIR="$here/mt/target" RUSTC_WRAPPER="$here/mt/wrap.sh"
  mkdir -p "$CARGO_TARGET_DIR"
  cd "$here/mt" && fresh
  if build "${bin}m"; then
    "$CARGO_TARGET_DIR/release/${bin}m" "$@"
    code=$?
    if [ $code -le 1 ]; then exit $code; fi
    echo "the exploration of memory accesses ended with $code" >&2
  else
    cat "$here/replays/build-${bin}m.log" >&2
  fi
  echo "exploring with larger steps instead" >&2
  export CARGO_TARGET_DIR="$here/mc/target"
  unset RUSTC_WRAPPER
  cd "$here/mc" || exit 2
fi
fresh
if [ "$bin" = c25 ] && ! build c25; then
  # a number type of our own may not fit a changed interface; the types of the crate do
  cat "$here/replays/build-c25.log" >&2
  echo "building the variant without a number type of its own" >&2
  bin=c25b
fi
if ! build "$bin"; then
  cat "$here/replays/build-$bin.log" >&2
  echo "ERROR property=$id the check does not build against /repo" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/release/$bin" "$@"
