#!/bin/sh
# show the compile errors a check reported
for f in /verif/evidence/replay/$1-*.json; do python3 - $f <<'P'
import json,sys
d=json.load(open(sys.argv[1])); print(sys.argv[1], d['what'])
if 'compiler' in d:
    for l in d['compiler'].splitlines():
        if 'error' in l: print('  ',l[:400])
P
done
