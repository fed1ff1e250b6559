import json,sys,glob
from vlib import SCR
p,i=int(sys.argv[1]),int(sys.argv[2])
for l in open(SCR+'/'+__import__('os').environ.get('CAMP','camp')+'/all.ndjson'):
    x=json.loads(l)
    if (x['p'],x['id'])==(p,i):
        for k,e in enumerate(x['ev']): print(k+1,json.dumps(e))
        print({a:b for a,b in x.items() if a!='ev'})
