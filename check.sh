#!/bin/bash
# check.sh ID quick|thorough     build the monitors against /repo as it is and decide property ID
# check.sh --setup               build everything once
# check.sh --replay FILE         run the case of a replay file again
# Exit 0: held on everything observed. Exit 1: VIOLATION line printed. Exit 2: no answer.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
H="$ROOT/harness"
T="$ROOT/target"
export LNMON_ROOT="$ROOT" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS MIRIFLAGS
mkdir -p "$T"
exec 9>"$T/.lock" && flock 9

# Rebuild whenever any source differs in content, whatever its modification time says.
SUM=$({ cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum
        cd "$H" && find . -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)

fresh() { # target directory
  [ "$(cat "$1/.sum" 2>/dev/null)" = "$SUM" ] && return
  find "$1" -type d -name .fingerprint 2>/dev/null | while read -r d; do
    find "$d" -maxdepth 1 \( -name 'layered-*' -o -name 'lnmon-*' \) -exec rm -rf {} +
  done
}
built() { mkdir -p "$1" && echo "$SUM" >"$1/.sum"; }

fresh "$T/plain"
if ! (cd "$H" && RUSTUP_TOOLCHAIN=stable cargo build -q --release --offline --target-dir "$T/plain") >"$T/build.log" 2>&1; then
  grep -E '^error' -A6 "$T/build.log" | head -60
  echo "the monitors do not build against /repo: no answer"
  exit 2
fi
built "$T/plain"
BIN="$T/plain/release/lnmon"

if [ "${1:-}" = "--replay" ]; then exec "$BIN" replay "$2"; fi

ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
TRIPLE=x86_64-unknown-linux-gnu

san() { # name, flags, cargo arguments: prints the binary, or nothing when it cannot be built here
  local d="$T/$1"
  fresh "$d"
  if (cd "$H" && RUSTFLAGS="$2" timeout 500 cargo +nightly build -q --release --offline --target $TRIPLE --target-dir "$d" $3) >"$T/build-$1.log" 2>&1; then
    built "$d"
    echo "$d/$TRIPLE/release/lnmon"
  fi
}
o0() {
  fresh "$T/o0"
  if (cd "$H" && RUSTUP_TOOLCHAIN=stable timeout 500 cargo build -q --profile o0 --offline --target-dir "$T/o0") >"$T/build-o0.log" 2>&1; then
    built "$T/o0"
    echo "$T/o0/o0/lnmon"
  fi
}
miri_build() {
  fresh "$T/miri"
  # one build before several interpreters start from it
  timeout 500 bash "$ROOT/miri.sh" C25 1 0 0 >"$T/build-miri.log" 2>&1 && built "$T/miri"
}
if [ "$ID" = "--setup" ]; then
  san tsan '-Zsanitizer=thread' '-Zbuild-std'
  san asan '-Zsanitizer=address' ''
  o0
  miri_build
  exit 0
fi
case "$ID" in
  C24)
    LNMON_TSAN="$(san tsan '-Zsanitizer=thread' '-Zbuild-std')"
    export LNMON_TSAN LNMON_SAN_SCALE=10 LNMON_MIRI="$ROOT/miri.sh"
    ;;
  C25)
    LNMON_ASAN="$(san asan '-Zsanitizer=address' '')"
    LNMON_O0="$(o0)"
    export LNMON_ASAN LNMON_O0 LNMON_SAN_SCALE=4 LNMON_MIRI="$ROOT/miri.sh"
    ;;
esac
if [ -n "${LNMON_MIRI:-}" ]; then
  miri_build || LNMON_MIRI=
fi
exec "$BIN" supervise "$ID" "$TIER" "$SEED"
