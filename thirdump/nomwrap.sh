#!/bin/bash
# RUSTC_WRAPPER: the typed bodies of the crate nom are read as well (only the proofs of its leaf parsers need them)
n= p=
for a in "$@"; do [ "$p" = --crate-name ] && n=$a; p=$a; done
if [ "$n" = nom ] && [ -n "$THIRDUMP_BIN" ]; then "$THIRDUMP_BIN" "$@" && exit 0; fi
exec "$@"
