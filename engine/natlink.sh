#!/bin/sh
# Linker of the uninstrumented (replay) binary: the harness provides the Ipopt entry points.
for a do
  shift
  case "$a" in -lipopt) ;; *) set -- "$@" "$a" ;; esac
done
exec cc "$@"
