#!/bin/bash
# check.sh <property> [--replay FILE]: builds the driver (if needed) and runs one check.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="${VERIF_DIR:-$here}"
tdir="${VERIF_TARGET:-$VERIF_DIR/target}"
mkdir -p "$tdir"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET RUSTC_BOOTSTRAP
log="$tdir/driver-build.$$.log"
if ! (
  flock 9
  cd "$VERIF_DIR/driver" && RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true \
    cargo build --offline --quiet --target-dir "$tdir/driver" >"$log" 2>&1
) 9>"$tdir/.driver.lock"; then
  echo "check error: the driver does not build"; tail -40 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
exec "$tdir/driver/debug/driver" "$@"
