#!/bin/bash
# run.sh <property> [quick|thorough]   build the checker against /repo's working tree and run one check
# run.sh setup                          only build
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.88.0}" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/mc/target"
export VERIF_DIR="$here"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
build() {
  (
    flock 9
    # the freshness of the dependency is decided by its contents, not by time stamps
    now="$(cd /repo && find stable-fs Cargo.toml Cargo.lock -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
    stamp="$CARGO_TARGET_DIR/stable-fs.stamp"
    if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
      rm -f "$stamp"
      (cd "$here/mc" && cargo clean --offline --release -p stable-fs >/dev/null 2>&1)
    fi
    (cd "$here/mc" && cargo build --release --offline --locked) >"$CARGO_TARGET_DIR/build.log" 2>&1 || { tail -40 "$CARGO_TARGET_DIR/build.log" >&2; exit 1; }
    echo "$now" >"$stamp"
  ) 9>"$CARGO_TARGET_DIR/.lock"
}
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
build || { echo "the checker does not build against this tree" >&2; exit 3; }
[ "${1:-setup}" = setup ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
