#!/bin/bash
# Builds the simulator together with the current working tree of /repo, twice: with and
# without overflow checks and debug assertions.
here=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$here/bin/rustc-wrapper.sh"
mkdir -p "$here/target"
log="$here/target/build.$$"

build() {
  cd "$here/sim" || return 1
  cargo build --profile "$1" --offline >"$log.$1" 2>&1 && return
  # The code under test may use something of std that the simulator's one lacks.
  SIMSTD_OFF=1 cargo build --profile "$1" --offline >"$log.$1" 2>&1
}

build plain &
build release; a=$?
wait $!; b=$?
if [ $a != 0 ] || [ $b != 0 ]; then
  tail -n 60 "$log.release" "$log.plain" >&2
  rm -f "$log.release" "$log.plain"
  echo "error: the simulator could not be built" >&2
  exit 2
fi
rm -f "$log.release" "$log.plain"
