#!/bin/bash
# Build the simulator against /repo's working tree, then run it:  check.sh check <ID> | replay <file> | list
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" VERIF_DIR="$here"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
log="$here/target/build.log"
mkdir -p "$here/target"
if ! cargo build --release --offline --locked --manifest-path "$here/sim/Cargo.toml" >"$log" 2>&1; then
  echo "check.sh: the simulator does not build against /repo" >&2
  tail -40 "$log" >&2
  exit 2
fi
[ "${1:-}" = build ] && exit 0
exec "$here/target/release/sim" "$@"
