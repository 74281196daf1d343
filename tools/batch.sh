#!/bin/bash
# batch.sh harness "entry params [opts]"...: several engine runs on one compilation
h=$1; shift; rm -f /tmp/t/$h.bc; unset NOCOMP
for t in "$@"; do set -- $t; e=$1; p=$2; shift 2; printf '%-14s %-16s ' $e $p; TO=${TO:-120} /verif/tools/try.sh $h $e $p "$@" 2>&1 | tail -6 | cut -c1-420; [ -f /tmp/t/$h.bc ] || exit 1; export NOCOMP=1; done
