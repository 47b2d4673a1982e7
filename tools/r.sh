#!/bin/bash
# run harness for property and summarise
/usr/bin/time -f %es /verif/target/release/bdsp_${1,,} $1 --out /tmp/$1.json ${@:2} && python3 - $1 <<'P'
import json,sys,collections,re
d=json.load(open('/tmp/%s.json'%sys.argv[1]))
print({k:d[k] for k in('complete','evaluations','distinct_nontrivial','nviol')})
c=collections.OrderedDict()
for v in d['violations']:
    g=v['id'].split()[0]+' '+re.sub(r'[-\d.e]+','#',v['msg'])[:60]
    c.setdefault(g,[]).append(v)
n=0
for g,vs in c.items():
    n+=1
    if n>30: print('...',len(c)-30,'more kinds'); break
    v=vs[0]; print(len(vs),'|',v['id'],'=>',v['msg'][:220])
P
