#!/usr/bin/env python3
"""Development aid: every cell over one dump directory (tools/dump.sh DIR)."""
import sys; sys.path.insert(0,'/verif')
from va import run, cases
from collections import Counter
d=sys.argv[1] if len(sys.argv)>1 else '/tmp/d4'
r=run.run_cases({'lib':d+'/jst.lib.json','bin':d+'/jsonschema_transpiler.bin.json'},list(range(len(cases.CASES))))
print(Counter(x[1] for x in r))
pc=Counter()
seen=Counter()
for i,v,out,why,fns,s,_ in sorted(r):
    c=cases.CASES[i]
    if v!='holds':
        seen[c.stage,v]+=1
        if v=='undecided' and seen[c.stage,v]<3: print(c.stage,c.name,'UNDECIDED',why[:300])
        if v=='differs':
            for o in out:
                for p in o[3]: pc[p]+=1
                if not o[3]: pc['none']+=1
            if seen[c.stage,v]<4: print(c.stage,'|',c.name,'|',out[0][0],'|',out[0][1][:200],'|',out[0][2][:200],out[0][3])
print(pc)
