#!/bin/bash
# Builds simstd and ksim against /repo's current working tree (offline).  Prints the binary's path.
# KSIM_REPO / KSIM_BUILD select another tree and build folder (used while planting bugs).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="${KSIM_REPO:-/repo}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
out="${KSIM_BUILD:-$here/../build}"
mkdir -p "$out"; out="$(cd "$out" && pwd)"
exec 9>"$out/.lock"; flock 9
key="$( { cat "$here"/simstd/*.rs "$here/rustc-wrap.sh"; rustc -V; } | sha256sum | cut -c1-12)"
dir="$out/b-$key"; export SIMSTD_DIR="$dir/simstd"
mkdir -p "$SIMSTD_DIR"
for d in "$out"/b-*; do [ -d "$d" ] && [ "$d" != "$dir" ] && rm -rf "$d"; done
if [ ! -e "$SIMSTD_DIR/ok" ]; then
  RUSTC_BOOTSTRAP=1 rustc --edition 2021 -C opt-level=2 -C overflow-checks=on --crate-type rlib --crate-name simstd \
    "$here/simstd/lib.rs" -o "$SIMSTD_DIR/libsimstd.rlib" >"$dir/simstd.log" 2>&1 || { cat "$dir/simstd.log" >&2; exit 2; }
  touch "$SIMSTD_DIR/ok"
fi
export RUSTC_WRAPPER="$here/rustc-wrap.sh" CARGO_TARGET_DIR="$dir/target"
src="$(cd "$repo" && { find src Cargo.toml -type f | LC_ALL=C sort | xargs cat; find src -type f | LC_ALL=C sort; } | sha256sum | cut -c1-16)"
crate="$here/ksim"
if [ "$repo" != /repo ]; then
  crate="$dir/ksim"; mkdir -p "$crate"
  cp -a "$here/ksim/." "$crate/"
  sed -i "s|path = \"/repo\"|path = \"$repo\"|" "$crate/Cargo.toml"
fi
cd "$crate"
if [ "$(cat "$dir/src.hash" 2>/dev/null)" != "$src" ]; then
  cargo clean --offline --release -p k >/dev/null 2>&1 || true
fi
if ! cargo build --offline --release >"$dir/build.log" 2>&1; then cat "$dir/build.log" >&2; exit 2; fi
echo "$src" >"$dir/src.hash"
echo "$CARGO_TARGET_DIR/release/ksim"
