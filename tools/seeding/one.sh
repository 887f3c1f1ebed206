#!/bin/bash
# one.sh MUT PROP...
cd /tmp/seed; n=$1; shift; d=/tmp/seed/w/one-$n; rm -rf /tmp/seed/w/one-$n; mkdir -p $d/v; cp -a /repo $d/repo; git -C $d/repo apply /tmp/seed/mut/$n.diff || exit 1
cp -a /verif/check.py /verif/special.py /verif/mon /verif/known_findings.json /verif/properties.jsonl /verif/MANIFEST.json $d/v/
for p in "$@"; do VERIF_REPO=$d/repo VERIF_SEED=1 VERIF_TIER=quick python3 $d/v/check.py $p > $d/out 2>&1; rc=$?; if [ $rc = 1 ]; then echo "$n caught $p" >> /tmp/seed/one.log; rm -rf /tmp/seed/w/one-$n; exit; fi; [ $rc = 0 ] || echo "$n $p rc=$rc" >> /tmp/seed/one.log; done
echo "$n MISSED $*" >> /tmp/seed/one.log; rm -rf /tmp/seed/w/one-$n
