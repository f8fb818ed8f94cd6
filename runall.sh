#!/bin/bash
# run every check; used during development
cd "$(dirname "$0")"
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}; do
  /opt/venv/bin/python -m dst.check $c > /tmp/out.$c 2>&1; echo "$c rc=$? $(grep -h 'runs in' /tmp/out.$c) | $(tail -1 /tmp/out.$c)"
done
