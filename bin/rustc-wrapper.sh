#!/bin/bash
# Compiles eth_trie_utils with the simulator's standard library in the place of std, and
# everything else as usual. SIMSTD_OFF=1: everything as usual.
name= out= prev=
for a in "$@"; do
  case $prev in --crate-name) name=$a;; --out-dir) out=$a;; esac
  prev=$a
done
if [ "$name" = eth_trie_utils ]; then
  std=$(ls -t "$out"/libsimstd-*.rmeta 2>/dev/null | head -n 1)
  if [ -n "$std" ] && [ "$SIMSTD_OFF" != 1 ]; then
    echo yes >"$out/../std-seam"
    exec "$@" --extern "std=$std"
  fi
  echo no >"$out/../std-seam"
fi
exec "$@"
