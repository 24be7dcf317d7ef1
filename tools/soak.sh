#!/bin/bash
# soak.sh FROM TO [ids]: run every quick check with seeds FROM..TO, report what is not OK
cd "$(dirname "$0")/.."
from=$1; to=$2; shift 2
ids=${*:-$(seq -f 'C%02g' 1 40)}
export VERIF_EVIDENCE=/tmp/soak_ev; mkdir -p $VERIF_EVIDENCE
for s in $(seq $from $to); do for c in $ids; do
  grep -q "\"$c\"" harness/registry.py || continue
  out=$(timeout 900 /opt/venv/bin/python harness/run.py $c --seed $s 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "SEED $s $c rc=$rc"; echo "$out" | tail -4 | cut -c1-1500; cp $VERIF_EVIDENCE/$c.violation.json /tmp/soak_$c.$s.json 2>/dev/null; fi
done; echo "seed $s done"; done
