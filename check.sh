#!/bin/bash
# check.sh ID quick|thorough   decide one property against /repo's working tree
# check.sh replay FILE         re-run a replay file
# check.sh build               build only
#
# Exit 0: the property held on everything explored. Exit 1 with a line
# "VIOLATION property=<id> replay=<path>": it did not. Exit 2: no answer.
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO=/repo
export VERIF_DIR CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN

# cargo goes by time stamps; go by content as well, so that a tree swapped
# underneath is rebuilt whatever its time stamps say
stamp="$(cd "$REPO" && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.check.lock"
flock 9
if [ "$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)" != "$stamp" ]; then
  [ -d "$CARGO_TARGET_DIR/release" ] &&
    cargo clean --release --offline -p dockerfile-parser --manifest-path "$VERIF_DIR/harness/Cargo.toml" >/dev/null 2>&1
  rm -f "$CARGO_TARGET_DIR/repo.stamp"
fi
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --release --offline --manifest-path "$VERIF_DIR/harness/Cargo.toml" >"$log" 2>&1; then
  echo "ERROR: the harness does not build against $REPO" >&2
  grep -E -A8 '^error' "$log" | head -60 >&2
  exit 2
fi
echo "$stamp" >"$CARGO_TARGET_DIR/repo.stamp"
bin="$CARGO_TARGET_DIR/release/vharness"
flock -u 9
exec 9>&-

case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  C[0-9][0-9]) ;;
  *) echo "usage: check.sh ID quick|thorough | replay FILE | build" >&2; exit 2 ;;
esac
tier="${2:-${VERIF_TIER:-quick}}"
if [ "$tier" = thorough ] && [ -x "$VERIF_DIR/fuzz.sh" ]; then
  "$bin" check "$1" thorough || exit $?
  exec "$VERIF_DIR/fuzz.sh" "$1"
fi
exec "$bin" check "$1" "$tier"
