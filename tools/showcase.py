#!/usr/bin/env python3
"""Print replay files compactly."""
import json,sys
def short(e):
    if isinstance(e,dict) and set(e)=={'from','out','to','port'}:
        p=e['port']; p='param' if p=='Param' else p['In']
        return f"{e['from']}.{e['out']}->{e['to']}.{p}"
    if isinstance(e,list): return '['+', '.join(str(short(x)) for x in e)+']'
    if isinstance(e,dict): return '{'+', '.join(f"{k}: {short(v)}" for k,v in e.items())+'}'
    return json.dumps(e)
for f in sys.argv[1:]:
    d=json.load(open(f)); c=d.get('case',d)
    print(f, d.get('suite'), d.get('message','')[:600])
    if not isinstance(c,dict): print(c); continue
    for k,v in c.items():
        if isinstance(v,list) and v and len(json.dumps(v))>100:
            print(f'{k}:')
            for i,x in enumerate(v): print('  ',i,short(x)[:400])
        else: print(f'{k}:',short(v)[:600])
