#!/bin/bash
# run every registered check once (development)
cd /verif; for p in $(python3 -c "import sys;sys.path.insert(0,'vp');import spec;print(*(sys.argv[1:] or spec.PROPS))" "$@"); do python3 check.py $p; echo "   rc=$?"; done
