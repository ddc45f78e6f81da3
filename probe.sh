#!/usr/bin/env bash
# probe.sh TIER: builds the crate in /repo in all 16 build configurations (each subset of its three
# features, with and without debug assertions and overflow checks), runs the probe in each and leaves
# build/probe/<configuration>.out, or .fail with the reason. Exit 0 unless something outside the crate fails.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tier="${1:-quick}"
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS= CARGO_INCREMENTAL=0
out="$here/build/probe"
mkdir -p "$out"
exec 8>"$out/.lock"
flock 8
export CARGO_TARGET_DIR="$out/target"
sum="$(cd /repo && find Cargo.toml src -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$out/.sources" 2>/dev/null)" != "$sum" ]; then
  rm -f "$out/.sources"
  cargo clean --offline --quiet -p kserd --manifest-path "$here/probe/Cargo.toml" >/dev/null 2>&1
  cargo clean --offline --quiet --release -p kserd --manifest-path "$here/probe/Cargo.toml" >/dev/null 2>&1
fi
find "$out" -maxdepth 1 -type f \( -name '*.out' -o -name '*.fail' \) -delete

# one configuration: features, profile flag, name
build() {
  local cfg="$1" feats="$2" flag="$3"
  local log="$out/$cfg.log" dir=debug
  [ -n "$flag" ] && dir=release
  if ! cargo build $flag --offline --locked --quiet --manifest-path "$here/probe/Cargo.toml" \
      --no-default-features --features "$feats" >"$log" 2>&1; then
    if grep -q 'could not compile `kserd`' "$log"; then
      { echo "the crate does not build"; grep -A8 '^error' "$log" | head -40; } >"$out/$cfg.fail"
      return 0
    fi
    cat "$log" >&2
    return 1
  fi
  cp "$out/target/$dir/probe" "$out/$cfg.bin"
}
for feats in "encode,format,parse" "" "encode" "format" "parse" "encode,format" "encode,parse" "format,parse"; do
  for flag in "" "--release"; do
    cfg="$(printf '%s' "${feats:-none}" | tr ',' '-')-$([ -n "$flag" ] && echo release || echo debug)"
    build "$cfg" "$feats" "$flag" || { echo "probe build failed ($cfg)" >&2; exit 2; }
    [ -e "$out/$cfg.fail" ] && continue
    timeout -s KILL 300 "$out/$cfg.bin" "$tier" >"$out/$cfg.tmp" 2>"$out/$cfg.log"
    rc=$?
    case $rc in
      0) mv "$out/$cfg.tmp" "$out/$cfg.out" ;;
      132|134|135|136|139) echo "the run of every case ended by signal $((rc - 128))" >"$out/$cfg.fail" ;;
      *) echo "probe of $cfg ended with $rc" >&2; exit 2 ;;
    esac
  done
done
printf '%s' "$sum" >"$out/.sources"
