#!/usr/bin/env python3
"""prints the dumped MIR of functions whose name contains ARG (developer aid)"""
import json,sys
d=json.load(open(sys.argv[1]));T=d['types']
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s+=' as#%d'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o[0]=='const':
        c=o[1]
        t=T[c['ty']]
        if c.get('k')=='fn': return 'fn '+t['callee']['name'] if 'callee' in t else 'fn?'
        return 'const %s:%s'%({k:v for k,v in c.items() if k not in('ty',)},t['s'])
    return o[0]+' '+pl(o[1])
for n,f in d['fns'].items():
    if not any(a in n for a in sys.argv[2:]): continue
    print('=====',n)
    def show(b):
        for i,l in enumerate(b['locals']): print('   let _%d: %s %s'%(i,T[l['ty']]['s'],l.get('name','')))
        for i,x in enumerate(b['blocks']):
            if x['cl']: continue
            print(' bb%d:'%i)
            for s in x['s']:
                if s[0]=='=':
                    r=s[2]
                    if r[0]=='use': r=op(r[1])
                    elif r[0]=='ref': r='&%s %s'%(r[1],pl(r[2]))
                    elif r[0]=='agg': r='agg %s %s %s (%s)'%(r[1],r[2],r[3],', '.join(op(o) for o in r[4]))
                    elif r[0]=='discr': r='discr '+pl(r[1])
                    elif r[0] in('bin',): r='%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
                    print('    %s = %s'%(pl(s[1]),r))
                else: print('    ',s)
            t=x['t']
            if t[0]=='call': print('    %s = call %s(%s) -> %s'%(pl(t[3]),op(t[1]),', '.join(op(o) for o in t[2]),t[4]))
            elif t[0]=='switch': print('    switch %s %s else %s'%(op(t[1]),t[2],t[3]))
            else: print('    ',t)
    show(f['body'])
    for i,p in enumerate(f['promoted']):
        print(' promoted',i); show(p)
