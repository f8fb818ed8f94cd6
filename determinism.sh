#!/bin/bash
# Every simulated run twice, with different worker counts:
# the hash over all events and results must be the same.
cd "$(dirname "$0")"; N=${1:-150}; S=${2:-11}; D=$(mktemp -d /tmp/dstdet.XXXX)
for c in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15; do
  VERIF_SEED=$S DST_RUNS=$N DST_WORKERS=8 DST_LOGS=$D/a /opt/venv/bin/python -m dst.check $c >/dev/null 2>&1
  VERIF_SEED=$S DST_RUNS=$N DST_WORKERS=5 DST_LOGS=$D/b /opt/venv/bin/python -m dst.check $c >/dev/null 2>&1
  /opt/venv/bin/python - $c $D/a $D/b <<'P'
import json,sys
a,b=(json.load(open(x)) for x in sys.argv[2:4])
d=[k for k in a if a[k]!=b.get(k)]
print(sys.argv[1],len(a),"runs,",len(d),"differ",d[:8])
P
done
rm -r "$D"
