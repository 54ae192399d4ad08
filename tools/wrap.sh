#!/bin/bash
# RUSTC_WRAPPER: some build scripts turn on `rustc_attrs` when they see a nightly compiler; leave that off.
a=()
while [ $# -gt 0 ]; do
  if [ "$1" = --cfg ] && [ "$2" = rustc_attrs ]; then shift 2; continue; fi
  a+=("$1"); shift
done
exec "${a[@]}"
