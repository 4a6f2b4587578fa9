#!/bin/bash
# sw.sh SCENARIO N [VARIANT]: run a scenario on 8 workers (development aid)
cd /verif; O=$(python3 vc/build.py ${3:-default}) || { echo "$O" | head -${L:-30}; exit 1; }; B=$(echo "$O" | awk "{print \$2}")
mkdir -p .build/sw; rm -f .build/sw/$1.?.*
for w in 0 1 2 3 4 5 6 7; do
 $B --scenario $1 --seed ${SEED:-1} --worker $w --n $2 --tmax 600 --out .build/sw/$1.$w --variant ${3:-default} > .build/sw/$1.$w.log 2>&1 || { echo "worker $w failed"; tail -${L:-6} .build/sw/$1.$w.log; } &
done; wait
python3 - $1 <<'P'
import json,sys
t=0;nt=0;inc=0;lab={}
for w in range(8):
    try: d=json.load(open('.build/sw/%s.%d.json'%(sys.argv[1],w)))
    except Exception as e: print(e); continue
    t+=d.get('cases',d.get('evaluations',0)); nt+=d.get('nontrivial',0); inc+=d.get('inconclusive',0)
    for k,v in d.get('labels',{}).items(): lab[k]=lab.get(k,0)+v
print(sys.argv[1],'cases',t,'nontrivial',nt,'inconclusive',inc,lab)
P
