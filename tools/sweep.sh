#!/bin/bash
# sweep.sh FROM TO [props]
rm -rf /tmp/vc && mkdir /tmp/vc && cp -a /verif/check.py /verif/lib /verif/spec /verif/harness /verif/known_findings.txt /verif/properties.jsonl /verif/.build /tmp/vc/
cd /tmp/vc; export CAPI_REPO=/tmp/cleanrepo
P="${3:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23}"
for s in $(seq $1 $2); do for p in $P; do
  o=$(VERIF_SEED=$s nice -n 10 timeout 900 python3 check.py $p 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "seed $s $p rc=$rc: $(echo "$o" | tail -3 | cut -c1-300)"; mkdir -p /tmp/w/fails; cp out/$p-1.json /tmp/w/fails/$p-$s.json 2>/dev/null; fi
done; echo "seed $s done"; done
