#!/bin/bash
# Compiles demo.rs against the built library and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
T=/opt/vp/ws/target/debug
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
ext() { ls -t $T/deps/lib$1-*.rlib | head -1; }
rustc --edition 2021 "$here/demo.rs" -o "$W/demo" -L dependency=$T/deps --extern symbolicator_sources=$T/libsymbolicator_sources.rlib \
  --extern symbolic="$(ext symbolic)" --extern serde_json="$(ext serde_json)" 2>"$W/log" || { cat "$W/log"; exit 3; }
cd "$W" && ./demo
