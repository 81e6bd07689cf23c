#!/bin/bash
# run checks: tools/rc.sh [tier] Cxx...
cd /verif
tier=quick; case "$1" in quick|thorough) tier=$1; shift;; esac
for c in "$@"; do
 t0=$SECONDS; /opt/venv/bin/python harness/check.py $c $tier >/tmp/$c.log 2>&1; echo "$c rc=$? $((SECONDS-t0))s $(grep -h VIOLATION /tmp/$c.log | head -3) $(tail -1 /tmp/$c.log | cut -c1-200)"
done
