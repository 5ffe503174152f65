import json,sys
for f in sys.argv[1:]:
    d=json.load(open(f)); print('==',f,d['what']); 
    if 'trace' not in d: print(d.get('compiler','')[:1500]); continue
    print(d.get("call"), d.get("descriptor") , {k:v for k,v in d['config'].items()})
    k=d['rejected_event']-1
    print('b0',d['trace']['b0'])
    for e in d['trace']['ev'][max(0,k-2):k+1]: print('  ',json.dumps(e)[:900])
