#!/bin/bash
# par.sh SECS root... : run dbg on several roots in parallel
S=$1; shift
for h in "$@"; do (timeout $S python3-vt /verif/vp/dbg.py $h $OPT > /tmp/o.$h 2>&1) & done; wait
for h in "$@"; do echo "=== $h"; tail -n ${N:-12} /tmp/o.$h; done
