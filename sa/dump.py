"""Debug aid: prints exported MIR of functions whose path contains a substring."""
import json, glob, sys
def pl(p):
    s=f"_{p[0]}"
    for e in p[1]:
        s+={'*':'.*','f':f".{e[1] if len(e)>1 else ''}",'i':f"[_{e[1] if len(e)>1 else ''}]",'ci':str(e),'dc':f" as {e[1] if len(e)>1 else ''}"}.get(e[0],str(e))
    return s
def op(o):
    if o[0] in('cp','mv'): return pl(o[1])
    c=o[1]
    if c[0]=='fn': return c[1].get('rpath') or c[1]['path']
    return json.dumps(c)+(f'<{o[2]}>' if len(o)>2 else '')
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return f"&{r[1]} {pl(r[2])}"
    if k=='bin': return f"{r[1]}({op(r[2])}, {op(r[3])})"
    if k=='un': return f"{r[1]}({op(r[2])})"
    if k=='cast': return f"{op(r[2])} as {r[3]} [{r[1]}]"
    if k=='discr': return f"discr({pl(r[1])})"
    if k=='agg': return f"{r[1]}({', '.join(map(op,r[2]))})"
    return str(r)
if __name__=='__main__':
    import os
    d=os.environ.get('MIRDIR','/verif/build/mir')
    for f in sorted(glob.glob(d+'/*.json')):
        if f.endswith('.wasm.json') and not os.environ.get('W'): continue
        for fn in json.load(open(f))['fns']:
            if sys.argv[1] in fn['path'] or sys.argv[1] in fn['id']:
                print('==',fn['path'],'|',fn['id'],fn['span'],'args',fn['args'], 'pub' if fn['public'] else '', 'reach' if fn['reachable'] else '')
                if len(sys.argv)>2: continue
                for i,l in enumerate(fn['locals']):
                    if i<=fn['args'] or l[1]: print('   ',i,l)
                for i,b in enumerate(fn['blocks']):
                    if b['c']: continue
                    print(' bb',i)
                    for s in b['s']:
                        print('    ',pl(s[1]),'=',rv(s[2]) if s[0]=='=' else s)
                    t=b['t']
                    if t[0]=='call': print('    ',pl(t[3]),'=CALL',op(t[1]),'(',', '.join(map(op,t[2])),') ->',t[4], t[5].split('/')[-1])
                    elif t[0]=='switch': print('     switch',op(t[1]),t[2],'else',t[3])
                    elif t[0]=='assert': print('     assert',op(t[1]),t[2],t[3],'->',t[5])
                    else: print('    ',t)
