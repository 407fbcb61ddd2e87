#!/bin/bash
# every check on /repo as it is; says which ones did not end in a complete proof
cd /verif
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}; do
  o=$(VERIF_SEED=1 python3 check.py $p quick 2>&1); rc=$?
  python3 - $p $rc <<'P'
import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json')); c=d['coverage']
ok = sys.argv[2]=='0' and d['level']=='proof' and c['obligations']==c['discharged']>0 and not c['structure'] and not c['undecided'] and not c.get('oracle_error')
print(sys.argv[1], 'rc', sys.argv[2], d['level'], f"{c['discharged']}/{c['obligations']}", f"{d['wall_s']} s", 'ok' if ok else 'NOT PROVED', c['structure'][:1], c['undecided'][:1], c.get('oracle_error','')[:80])
P
done
