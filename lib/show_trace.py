import sys; import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import layout_rt,tlc
prof,seed=sys.argv[1],int(sys.argv[2]); at=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
w=int(sys.argv[4]) if len(sys.argv)>4 else 40
t=layout_rt.run_seed(seed,prof)
v,_=tlc.validate('LayoutTrace',[t]); print(v, 'async',t['asy'])
def sr(x):
    k=x['k']
    if k=='n': return '-'
    if k=='s' or k=='err': return k+':'+x['x']
    if k=='c': return f"C{x['v']}[{x['key']}]#{x['n']}"
    if k=='p': return f"P{x['c']}={x['v']}[{x['key']}]("+','.join(map(sr,x['ch']))+')'
    return f"{x['t']}[{x['key']}]{x['x']}"+''.join(f"@{h[0][2:]}{h[1]}" for h in x['hs'])+'('+','.join(map(sr,x['ch']))+')'
def sm(x):
    if x['t']=='#': return x['x']
    return f"{x['t'] or '<>'}{x['x']}"+(f"!{x['er']}" if x['er'] else '')+(f" ack{x['ac']}" if x['ac']!=-1 else '')+''.join(f"@{h[0][2:]}{h[1]}>{h[2]}" for h in x['hs'])+'('+','.join(map(sm,x['ch']))+')'
for i,e in enumerate(t['ev'],1):
    if at-w<=i<=at+3:
        e=dict(e); n=e.pop('e')
        if 'raw' in e: e['raw']=sr(e['raw'])
        if 'model' in e: e['model']=sm(e['model'])
        print(i,n,' '.join(f'{k}={v}' for k,v in e.items()))
