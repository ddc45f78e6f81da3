#!/usr/bin/env bash
# Builds the harness (and with it the crate in /repo as it stands now) into /verif/build.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/build"
log="$here/build/last-build.log"
mkdir -p "$here/build"
exec 9>"$here/build/.lock"
flock 9
# cargo looks at modification times only; the contents decide here
sum="$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$here/build/.sources" 2>/dev/null)" != "$sum" ]; then
  rm -f "$here/build/.sources"
  cargo clean --offline --quiet --release -p kserd --manifest-path "$here/harness/Cargo.toml" >/dev/null 2>&1
fi
if ! cargo build --release --offline --locked --quiet --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
  cat "$log" >&2
  exit 2
fi
printf '%s' "$sum" >"$here/build/.sources"
