import json,sys
from collections import Counter
d=json.load(open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/evidence/replay_%s.json'%sys.argv[1]))
print(len(d['violations']),Counter(str(v['fails'])[:150] for v in d['violations']))
seen=set(); n=int(sys.argv[2]) if len(sys.argv)>2 else 600
for v in d['violations']:
    if str(v['fails']) in seen: continue
    seen.add(str(v['fails']))
    if len(seen)>int(sys.argv[3] if len(sys.argv)>3 else 3): break
    pre=[{k:x for k,x in e.items() if k not in('tb','o')} for e in v['trace'][:-1] if e['op']!='obs']
    print('--',str(v['fails'])[:400]); print('  pre',json.dumps(pre)[:n]); print('  ev',json.dumps(v['event'])[:2*n]); 
    if 'tb' in v['event']: print(v['event']['tb'][-700:])
