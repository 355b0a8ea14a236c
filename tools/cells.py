#!/usr/bin/env python3
"""Development aid: cells.py 'STAGE name-prefix' DUMPDIR [-v]"""
import sys,time,traceback; sys.path.insert(0,'/verif')
from va.prog import Prog
from va.cases import *
import va.cases as C
D=sys.argv[2] if len(sys.argv)>2 else '/tmp/d4'
P={'lib':Prog(D+'/jst.lib.json'),'bin':Prog(D+'/jsonschema_transpiler.bin.json')}
t0=time.time(); n=0
for c in C.CASES:
    if not (c.stage+' '+c.name).startswith(sys.argv[1]): continue
    n+=1
    k=Kit(P[c.prog])
    try:
        d=c.fn(k)
    except Diverge:
        d=['DIVERGE']
    except (Limit,Missing) as e:
        d=['LIMIT',repr(e)]
    except Exception as e:
        d=['EXC '+''.join(traceback.format_exc().splitlines(True)[-6:])]
    u={show(x)[:150]:v for x,v in k.e.undecided.items()}
    if d or '-v' in sys.argv: print(c.stage,'|',c.name,'|', *('\n    '+str(x)[:900] for x in d)); print('     undec',u,'unmod',k.e.unmodelled,'ev',list(k.e.events)[:4])
print(n,'cases %.1fs'%(time.time()-t0))
