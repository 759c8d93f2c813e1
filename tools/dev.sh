#!/bin/bash
# dev.sh PROP SEED COUNT: quick parallel search with the development build
P=$1; S=${2:-1}; N=${3:-200}; B=${B:-/verif/build/dev}
for w in 0 1 2 3 4 5 6 7; do $B/sim search $P $S $w 8 $N /tmp/dev.$P.$w.json 120 & done; wait
python3 - $P <<'E2'
import json,sys,collections
P=sys.argv[1]; tot=collections.Counter(); c=collections.Counter(); hs=set(); fails=[]
for w in range(8):
    d=json.load(open(f'/tmp/dev.{P}.{w}.json'))
    for k in ('runs','nontrivial','evals','fault_runs','fault_fired_runs','iocalls','steps'): tot[k]+=d[k]
    for k,v in d['counters'].items(): c[k]+=v
    hs|=set(d['hashes'])
    if d['fail']: fails.append(d['fail'])
print(P,dict(tot),'distinct',len(hs)); print('  ',dict(c))
for f in fails: print('  FAIL',f['idx'],f['file'],f['cls'],f['msg'][:600])
E2
