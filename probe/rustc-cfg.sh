#!/bin/sh
# Sets conditions of other systems (VERIF_CFGS) for the crate under test only.
for a in "$@"; do
  if [ "$prev" = --crate-name ] && [ "$a" = lyra2 ]; then
    set -- "$@" -Aexplicit_builtin_cfgs_in_flags
    for c in $VERIF_CFGS; do set -- "$@" --cfg "$c"; done
    exec "$@"
  fi
  prev=$a
done
exec "$@"
