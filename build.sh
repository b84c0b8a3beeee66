#!/bin/bash
# Builds the simulator (std replacement, patched thread pool, /repo with hooks on, harness).
# Prints nothing on success; the binary is /verif/target/sim/release/panacea-sim.
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
V=$(cd "$(dirname "$0")" && pwd)
T=$V/target
export RUSTC_WRAPPER=$V/rustc-wrap.sh
mkdir -p "$T"
exec 9>"$T/.lock"; flock 9
h=$(cat "$V"/simstd/*.rs | sha256sum | cut -c1-16)
S=$T/simstd-$h
if [ ! -f "$S/libpanacea_simstd.rlib" ]; then
  rm -rf "$T"/simstd-*
  mkdir -p "$S"
  rustc --edition 2021 -O -C target-cpu=x86-64-v3 --crate-type rlib --crate-name panacea_simstd \
    --out-dir "$S" "$V/simstd/lib.rs" >"$T/simstd.log" 2>&1 || { cat "$T/simstd.log" >&2; exit 3; }
fi
export RUSTFLAGS="-C target-cpu=x86-64-v3 --cfg panacea_sim --extern panacea_simstd=$S/libpanacea_simstd.rlib -L dependency=$S -A unexpected_cfgs"
cd "$V/sim" || exit 3
if ! cargo build --release --offline --locked --target-dir "$T/sim" >"$T/build.log" 2>&1; then
  cat "$T/build.log" >&2
  exit 3
fi
