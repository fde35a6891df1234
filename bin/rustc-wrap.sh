#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: records the rustc arguments of the harness crate
shift
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && [ "$a" = harness ]; then
    printf '%s\0' "$@" > "$MIRSYM_ARGS.$$" && mv "$MIRSYM_ARGS.$$" "$MIRSYM_ARGS"
  fi
  prev=$a
done
exec rustc "$@"
