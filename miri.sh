#!/bin/bash
# miri.sh ID SEED FROM COUNT: a few small cases under the Miri interpreter
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=${LNMON_MIRI_SEED:-0} -Zmiri-preemption-rate=0.05"
unset RUSTFLAGS
cd "$ROOT/harness" && exec cargo +nightly miri run -q --offline --target-dir "$ROOT/target/miri" -- tiny "$1" "$2" "$3" "$4"
