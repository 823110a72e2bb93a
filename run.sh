#!/bin/bash
# run.sh ID [quick|thorough]   decide one property on /repo's current working tree
# run.sh replay FILE           run one recorded violation again
# run.sh build                 build everything (setup)
# exit 0 held, 1 VIOLATION, 2 the check itself could not be done
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
cd "$ROOT"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC_WRAPPER
T="$ROOT/target"
LOG="$T/log"
mkdir -p "$LOG"

# build1 NAME PROFILE CFG: one build of the harness (and with it of /repo) into its own target dir
build1() {
  RUSTFLAGS="$3" CARGO_TARGET_DIR="$T/$1" cargo build --offline --manifest-path mc/Cargo.toml --profile "$2" >"$LOG/$1.log" 2>&1
}
bindir() { case "$1" in rel) echo release;; chk) echo checked;; dev) echo debug;; nat) echo native;; siz) echo small;; esac; }
profile() { case "$1" in rel) echo release;; chk) echo checked;; dev) echo dev;; nat) echo native;; siz) echo small;; esac; }

build() { # names...
  local cfg="--cfg lyra2_verif"
  if ! build1 rel release "$cfg"; then
    # the tree's private modules no longer fit the hook: go on without it, if that builds
    cfg=""
    if ! build1 rel release ""; then
      tail -40 "$LOG/rel.log" >&2
      echo "ERROR: /repo does not build" >&2
      exit 2
    fi
    echo "note: hook module does not build on this tree, continuing with the public functions" >&2
  fi
  local pids=()
  for n in "$@"; do
    [ "$n" = rel ] && continue
    case "$n" in
      nat) { build1 nat native "$cfg -C target-cpu=native" || rm -f "$T/nat/native/mc"; } & continue;; # these two are left out where they cannot be built
      siz) { build1 siz small "" || rm -f "$T/siz/small/mc"; } & continue;;
    esac
    build1 "$n" "$(profile "$n")" "$cfg" & pids+=("$!:$n")
  done
  for p in "${pids[@]:-}"; do
    [ -z "$p" ] && continue
    if ! wait "${p%%:*}"; then
      tail -40 "$LOG/${p##*:}.log" >&2
      echo "ERROR: build ${p##*:} failed" >&2
      exit 2
    fi
  done
  wait
  export MC_NAT="$T/nat/native/mc" MC_SIZ="$T/siz/small/mc"
  export MC_REL="$T/rel/release/mc" MC_CHK="$T/chk/checked/mc" MC_DEV="$T/dev/debug/mc" MC_ROOT="$ROOT" MC_CFG="$cfg"
}

# the crate for wasm32 (a 32-bit platform that runs at compiled speed); MC_WASM is empty where that cannot be built
build_wasm() {
  local TC=nightly-x86_64-unknown-linux-gnu TR=wasm32-unknown-unknown R="$T/wasm-root" B="$T/wasm-std" HS LIB
  export MC_WASM=""
  HS="$(RUSTUP_TOOLCHAIN=$TC rustc --print sysroot)" || return 0
  LIB="$HS/lib/rustlib/src/rust/library"
  if [ ! -e "$R/done" ]; then
    mkdir -p "$R/lib/rustlib/$TR/lib"
    RUSTUP_TOOLCHAIN=$TC CARGO_TARGET_DIR="$B" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zforce-unstable-if-unmarked -Cpanic=abort" \
      cargo build --offline --locked --release --manifest-path "$LIB/sysroot/Cargo.toml" --target $TR \
      --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$LIB/vendor\"" >"$LOG/wasm-std.log" 2>&1 || return 0
    find "$B/$TR" \( -name '*.rlib' -o -name '*.rmeta' \) \( -path '*/out/*' -o -path '*/deps/*' \) -exec cp {} "$R/lib/rustlib/$TR/lib/" \;
    ln -sfn "$HS/lib/rustlib/x86_64-unknown-linux-gnu" "$R/lib/rustlib/x86_64-unknown-linux-gnu"
    touch "$R/done"
  fi
  RUSTUP_TOOLCHAIN=$TC CARGO_TARGET_DIR="$T/wasm" RUSTFLAGS="--sysroot $R" \
    cargo build --offline --release --manifest-path wasmrun/Cargo.toml --target $TR >"$LOG/wasm.log" 2>&1 || return 0
  export MC_WASM="$T/wasm/$TR/release/wasmrun.wasm"
}

ID="${1:-}"
TIER="${2:-${VERIF_TIER:-quick}}"
case "$ID" in
  build) build rel chk dev nat siz; build_wasm; [ -n "$MC_WASM" ] || echo "note: no wasm32 build" >&2; echo built; exit 0;;
  replay) build rel chk dev nat siz; grep -q "^target: wasm32" "$2" && build_wasm; exec "$MC_REL" replay "$2";;
  C01|C02|C03|C04|C05|C06|C14) build rel chk;;
  C13) build rel chk dev nat siz;;
  C07|C08|C09|C10|C11|C15|C16|C17) build rel;;
  C12) build rel; build_wasm;;
  *) echo "usage: run.sh C01..C17 [quick|thorough] | replay FILE | build" >&2; exit 2;;
esac
exec "$MC_REL" check "$ID" "$TIER"
