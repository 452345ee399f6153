#!/bin/bash
# run.sh <property>            explore one property (tier from VERIF_TIER)
# run.sh build                 build the harness only
# run.sh expand|run-case ...   used by replay scripts
set -u
export VMC_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VMC_TARGET="$VMC_ROOT/harness/target"
export RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$VMC_TARGET"
# cargo trusts modification times; content is what matters here
export VMC_SRC_HASH="$(cd /repo && find Cargo.toml src build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs cat | sha256sum | cut -c1-16)"
(
  flock 9
  if [ "$(cat "$VMC_TARGET/src.hash" 2>/dev/null)" != "$VMC_SRC_HASH" ]; then
    rm -rf "$VMC_TARGET"/debug/.fingerprint/parsegen*
  fi
  cd "$VMC_ROOT/harness" &&
  { cargo build --offline --quiet -p vmc -p vref -p parsegen > "$VMC_TARGET/build.log" 2>&1 ||
    # /repo does not build as an ordinary library: let rustc do every expansion
    cargo build --offline --quiet -p vmc -p vref -p parsegen --no-default-features > "$VMC_TARGET/build2.log" 2>&1; } &&
  echo "$VMC_SRC_HASH" > "$VMC_TARGET/src.hash"
) 9> "$VMC_TARGET/lock"
if [ $? -ne 0 ]; then
  echo "ERROR harness build failed"; tail -40 "$VMC_TARGET/build.log"; exit 2
fi
vmc="$VMC_TARGET/debug/vmc"
case "${1:-}" in
  build) exit 0 ;;
  expand|run-case) exec "$vmc" "$@" ;;
  C*) exec "$vmc" check "$1" ;;
  *) echo "usage: run.sh <property>"; exit 2 ;;
esac
