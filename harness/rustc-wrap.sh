#!/bin/bash
# RUSTC_WRAPPER: compiles the crates under simulation against `simstd` instead of `std`.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && { name="$a"; break; }
  prev="$a"
done
case "$name" in
  k|urdf_rs) exec "$rustc" "$@" --extern "std=$SIMSTD_DIR/libsimstd.rlib" -L "$SIMSTD_DIR" ;;
  ksim) exec "$rustc" "$@" --extern "simstd=$SIMSTD_DIR/libsimstd.rlib" -L "$SIMSTD_DIR" ;;
  *) exec "$rustc" "$@" ;;
esac
