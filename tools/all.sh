#!/bin/bash
# tools/all.sh [ids...]: every check on the tree as it is; evidence in a scratch folder; prints the summary lines and what is undecided
cd "$(dirname "$0")/.."
E=${VERIF_EVID:-$(mktemp -d)}
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
  VERIF_EVID=$E /opt/venv/bin/python checks/run.py $p > $E/$p.out 2>&1; rc=$?
  echo "rc=$rc $(grep -v '^case' $E/$p.out | tail -1)"
  [ $rc = 0 ] || tail -5 $E/$p.out
  /opt/venv/bin/python - $E/$p.json <<'PY'
import json, sys
for u in json.load(open(sys.argv[1]))['coverage'].get('undecided', []):
    print('   undecided:', u['obligation'], '|', u['why'][:150])
PY
done
