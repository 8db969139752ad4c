"""show.py REPLAY [N]: the first violation of each recorded behaviour, by kind"""
import json,sys
v=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 600
seen=set(); beh=set()
for x in v:
    e=x['event']
    b=json.dumps(x['history'][0],sort_keys=True)
    if b in beh: continue
    beh.add(b); k=(e['op'],e.get('via'),e.get('ed'),e.get('which'),x['clause'])
    if k in seen: continue
    seen.add(k)
    print('=====',k, e['err'])
    for h in x['history']:
        d={k:w for k,w in h.items() if k not in ('D','b')}
        if h['op']=='data': d={'op':'data'}
        print('  ',json.dumps(d)[:n])
