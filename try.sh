#!/bin/bash
# try.sh PROP [SCALE] [more]: one dbg run with a summary
p=$1; s=${2:-0.1}; shift 2
timeout 900 /verif/target/${V:-dbg}/uv run --prop $p --scale $s --out /tmp/o.$p.json "$@" 2>/tmp/err.$p; echo "$p exit $?"; head -c 600 /tmp/err.$p
python3 - $p <<'P'
import json,sys
try: d=json.load(open('/tmp/o.%s.json'%sys.argv[1]))
except Exception as e: print(e); sys.exit()
for k in('evaluations','distinct_nontrivial','skipped','n_violations','broken','lacking','known','wall_s','edges_hit','edges_total','observations','maxima','scenarios'): print(' ',k,d[k])
for v in d['violations'][:6]: print('   V',v)
P
