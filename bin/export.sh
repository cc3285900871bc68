#!/bin/bash
# export.sh OUTDIR KIND...   KIND in: root structures macros derive
# Builds the MIR exporter if needed and exports the resolved MIR of the crates of
# /repo's current working tree into OUTDIR/<crate>.json.
set -e
HERE="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$1"; OUT="$(cd "$1" && pwd)"; shift
REPO="${VP_REPO:-/repo}"
BUILD="${VP_BUILD:-$HERE/.build}"
mkdir -p "$OUT" "$BUILD"
export CARGO_NET_OFFLINE=true
unset RUSTUP_TOOLCHAIN RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
SYS="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
(cd "$HERE/driver" && CARGO_TARGET_DIR="$BUILD/driver" cargo +nightly build --release --offline -q 2>"$BUILD/driver.log") || { cat "$BUILD/driver.log" >&2; echo "export: the MIR exporter did not build" >&2; exit 3; }
DRV="$BUILD/driver/release/vpdriver"
export VP_OUT="$OUT"
run() { # dir target-subdir crate-list fingerprint-glob
  local dir="$1" tgt="$BUILD/$2" crates="$3" name="$2"; shift 3
  if [ -d "$tgt/debug" ]; then
    for g in "$@"; do (cd "$dir" && CARGO_TARGET_DIR="$tgt" cargo +nightly clean -p "$g" --offline -q 2>/dev/null) || true; done
  fi
  (cd "$dir" && VP_CRATES="$crates" RUSTC_WORKSPACE_WRAPPER="$DRV" CARGO_TARGET_DIR="$tgt" CARGO_INCREMENTAL=0 \
     RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on -Awarnings" cargo +nightly check --lib --offline -q $EXTRA 2>"$BUILD/$name.log") \
     || { cat "$BUILD/$name.log" >&2; echo "export: $dir did not compile" >&2; exit 4; }
}
for k in "$@"; do
  case "$k" in
    root) run "$REPO" tgt_root graphviz_rust graphviz-rust ;;
    bare) EXTRA="--no-default-features" run "$REPO" tgt_bare graphviz_rust graphviz-rust ;;
    structures) run "$REPO/dot-structures" tgt_structures dot_structures dot-structures ;;
    macros) run "$VP_WITNESS" tgt_macros vp_macros vp_macros dot-generator dot-structures ;;
    derive) run "$VP_WITNESS" tgt_derive vp_derive vp_derive into-attr-derive ;;
    *) echo "unknown kind $k" >&2; exit 2 ;;
  esac
done
