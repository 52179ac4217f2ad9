#!/bin/bash
# run.sh ID [quick|thorough] | build | replay FILE
# Builds the model checker against /repo's current working tree and runs one check.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export KMC_HOME="$HERE"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin${PATH:+:$PATH}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable
export PYO3_PYTHON=/usr/bin/python3.12
export PYTHONPATH=/opt/kom-venv/lib/python3.12/site-packages
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg MPLCONFIGDIR=/opt/kom-venv/mplconfig
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export CARGO_TARGET_DIR="$HERE/target"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
REPO=/repo

src_hash() {
  (cd "$REPO" && { find src build.rs Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum; } 2>/dev/null;
   cd "$HERE/mc" && { find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum; } 2>/dev/null) | sha256sum | cut -d' ' -f1
}

build() {
  mkdir -p "$CARGO_TARGET_DIR"
  exec 9>"$CARGO_TARGET_DIR/.kmc.lock"; flock 9
  local h; h=$(src_hash)
  if [ -x "$CARGO_TARGET_DIR/kmc.bin" ] && [ "$(cat "$CARGO_TARGET_DIR/kmc.hash" 2>/dev/null)" = "$h" ]; then
    exec 9>&-; return 0
  fi
  rm -f "$CARGO_TARGET_DIR/kmc.hash" "$CARGO_TARGET_DIR/kmc.bin"
  local log="$CARGO_TARGET_DIR/build.log" ok=1
  # cargo decides by time stamps: make sure the crate under test is really recompiled.
  (cd "$HERE/mc" && cargo clean --release --offline -p komunikilo -p kmc >/dev/null 2>&1)
  if (cd "$HERE/mc" && RUSTFLAGS="--cfg kmc" cargo build --release --offline >"$log" 2>&1); then ok=0
  else
    # the hook may have been refactored away: everything but the hooked scenario still runs without it
    if (cd "$HERE/mc" && RUSTFLAGS="" cargo build --release --offline >"$log.nohook" 2>&1); then ok=0; fi
  fi
  if [ $ok -ne 0 ]; then echo "build failed:"; tail -40 "$log"; return 1; fi
  cp "$CARGO_TARGET_DIR/release/kmc" "$CARGO_TARGET_DIR/kmc.bin" || return 1
  # the Python extension module, for the kom_py checks
  rm -rf "$CARGO_TARGET_DIR/pymod"; mkdir -p "$CARGO_TARGET_DIR/pymod"
  local so; so=$(ls -t "$CARGO_TARGET_DIR"/release/deps/libkomunikilo*.so "$CARGO_TARGET_DIR"/release/libkomunikilo*.so 2>/dev/null | head -1)
  [ -n "$so" ] && cp "$so" "$CARGO_TARGET_DIR/pymod/komunikilo.so"
  echo "$h" >"$CARGO_TARGET_DIR/kmc.hash"
  exec 9>&-
}

case "${1:-}" in
  build) build; exit $? ;;
  replay) build || exit 2
    if grep -Eq '^property C(3[458]|41)$' "$2"; then exec /usr/bin/python3.12 "$HERE/py/kpy.py" replay "$2"; fi
    exec "$CARGO_TARGET_DIR/kmc.bin" replay "$2" ;;
esac
ID=$1
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
build || exit 2
case "$ID" in
  C34|C35|C38|C41) exec /usr/bin/python3.12 "$HERE/py/kpy.py" check "$ID" ;;
  *) exec "$CARGO_TARGET_DIR/kmc.bin" check "$ID" ;;
esac
