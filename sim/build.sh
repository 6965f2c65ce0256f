#!/bin/bash
# Builds, from /repo's working tree, what the simulation runs: the extension module with an edge
# callback at every basic block of its own code, the Python package beside it, and libsim.so.
# Everything goes below /verif/.build.  Prints nothing on success.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$B/target
FLAGS="-Cdebuginfo=0 -Cstrip=debuginfo -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-stores"
fail() { echo "build: $*" >&2; exit 3; }

gcc -O2 -g -fPIC -shared -w -o "$B/libsim.so.new" "$V/sim/libsim.c" -ldl -lpthread || fail "libsim"
cmp -s "$B/libsim.so.new" "$B/libsim.so" || cp "$B/libsim.so.new" "$B/libsim.so"

cd /repo || fail "/repo"
KEY=$( (echo "$FLAGS"; find src Cargo.toml Cargo.lock rust-toolchain* .cargo build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -c1-32)
SO=$B/so/$KEY.so
if [ ! -f "$SO" ]; then
  if [ ! -d "$B/target/debug/deps" ]; then
    mkdir -p "$B/target/debug/deps"
    if [ -d /repo/target/debug/deps ]; then # the dependencies, as built for /repo; linked, not copied
      cp -a /repo/target/debug/.fingerprint /repo/target/debug/build "$B/target/debug/" 2>/dev/null
      (cd /repo/target/debug/deps && find . -maxdepth 1 -type f ! -name '*_polars_ds*' -print0 |
        xargs -0 cp -al -t "$B/target/debug/deps/" 2>/dev/null ||
        find . -maxdepth 1 -type f ! -name '*_polars_ds*' -print0 | xargs -0 cp -a -t "$B/target/debug/deps/")
      find "$B/target/debug/.fingerprint" -maxdepth 1 -name 'polars_ds-*' -exec rm -rf {} +
    fi
  fi
  # the tree may have been swapped under us with older time stamps: let cargo look at the crate anew
  find "$B/target/debug/.fingerprint" -maxdepth 1 -name 'polars_ds-*' -exec rm -rf {} + 2>/dev/null
  # shellcheck disable=SC2086
  cargo rustc --locked --offline --lib -- $FLAGS >"$B/cargo.log" 2>&1 || { tail -30 "$B/cargo.log" >&2; fail "cargo"; }
  mkdir -p "$B/so"
  find "$B/so" -name '*.so' -mmin +240 -delete 2>/dev/null
  cp "$B/target/debug/lib_polars_ds.so" "$SO.tmp" && mv "$SO.tmp" "$SO" || fail "copy"
fi
# the Python side, as it is now
PK=$( (echo "$KEY"; cd /repo/python && find polars_ds -type f ! -name '*.so' ! -name '*.pyc' | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -c1-32)
P=$B/py/$PK
if [ ! -f "$P/ok" ]; then
  find "$B/py" -mindepth 1 -maxdepth 1 -mmin +240 -exec rm -rf {} + 2>/dev/null
  rm -rf "$P"; mkdir -p "$P"
  cp -r /repo/python/polars_ds "$P/" || fail "python"
  find "$P" \( -name '*.so' -o -name __pycache__ \) -exec rm -rf {} + 2>/dev/null
  ln "$SO" "$P/polars_ds/_polars_ds.abi3.so" 2>/dev/null || cp "$SO" "$P/polars_ds/_polars_ds.abi3.so" || fail "so"
  VER=$(sed -n 's/^version *= *"\(.*\)"/\1/p' Cargo.toml | head -1)
  mkdir -p "$P/polars_ds-$VER.dist-info"
  printf 'Metadata-Version: 2.1\nName: polars_ds\nVersion: %s\n' "$VER" >"$P/polars_ds-$VER.dist-info/METADATA"
  touch "$P/ok"
fi
ln -sfn "$P" "$B/current"
