#!/bin/bash
# check.sh PROPERTY            rebuild from /repo's working tree and run the check
# check.sh replay FILE         replay a recorded violation
# check.sh build               build everything
# check.sh selfcheck PROP N    determinism check: N seeds, 4 base seeds, worker counts 1, 3, 8 and 8
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$ROOT/target" CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
crate_of() {
  case "$1" in
    C01|C02|C11) echo sim-arena ;;
    C12|C13|C14|C15|C16) echo sim-zc ;;
    C06) echo sim-ver ;;
    C23) echo sim-msg ;;
    *) echo sim-codec ;;
  esac
}
build() {
  local other=
  if [ "${2:-}" ]; then machines "$2" & other=$!; fi
  build_one "$1"
  if [ "$other" ] && ! wait "$other"; then exit 2; fi
}
build_one() {
  mkdir -p "$ROOT/target"
  local log="$ROOT/target/build-$1.log"
  if ! (cd "$ROOT/sim" && cargo build --offline --locked -q -p "$1") >"$log" 2>&1; then
    echo "build of $1 failed:" >&2; tail -60 "$log" >&2; exit 2
  fi
}
# The emulated machines of other byte orders and word sizes.
MACHINES="s390x-unknown-linux-gnu powerpc-unknown-linux-gnu armv7-unknown-linux-gnueabihf"
machines() {
  local package
  case "$1" in C16) package=sim-node ;; C23) package=sim-peer ;; *) return ;; esac
  mkdir -p "$ROOT/target/machines"
  local t pids=
  for t in $MACHINES; do
    (
      cd "$ROOT/sim" || exit 1
      export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$ROOT/target/machines/$t" MIRI_SYSROOT="$ROOT/target/machines/$t/sysroot"
      unset RUSTC_WRAPPER
      export RUSTFLAGS=-Awarnings MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"
      [ -d "$MIRI_SYSROOT/lib" ] || cargo miri setup -q --target "$t" || exit 1
      cargo miri run -q --offline --locked -p $package --target "$t" </dev/null
    ) >"$ROOT/target/machines-$t.log" 2>&1 &
    pids="$pids $!"
  done
  for t in $pids; do
    if ! wait "$t"; then echo "building the emulated machines failed:" >&2; tail -30 "$ROOT"/target/machines-*.log >&2; exit 2; fi
  done
}
case "${1:-}" in
  build) for c in sim-arena sim-codec sim-zc sim-msg sim-ver; do [ -f "$ROOT/sim/${c#sim-}/Cargo.toml" ] && build $c; done; exit 0 ;;
  replay) p=$(sed -n 's/^property: *//p' "$2" | head -1); c=$(crate_of "$p"); build $c $p; exec "$ROOT/target/debug/$c" replay "$2" ;;
  selfcheck) c=$(crate_of "$2"); build $c $2; exec "$ROOT/target/debug/$c" selfcheck "$2" "${3:-2000}" ;;
  one) c=$(crate_of "$2"); build $c $2; exec "$ROOT/target/debug/$c" one "$2" "$3" ;;
  C*) c=$(crate_of "$1"); build $c $1; exec "$ROOT/target/debug/$c" check "$1" ;;
  *) sed -n 2,5p "$0"; exit 2 ;;
esac
