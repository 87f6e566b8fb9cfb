import json,sys
from collections import Counter
d=json.load(open('/verif/replays/%s.json'%sys.argv[1]))
print(len(d),Counter(x['what'] for x in d))
n=int(sys.argv[2]) if len(sys.argv)>2 else 10
w=int(sys.argv[3]) if len(sys.argv)>3 else 250
seen=Counter()
lines=0
for x in d:
    t=x['data']
    k=(x['what'],t.get('about','').split(':')[0]) if isinstance(t,dict) else x['what']
    seen[k]+=1
    if seen[k]>n: continue
    lines+=1
    if lines>16: break
    print(x['what'],'|',json.dumps(t,ensure_ascii=False)[:w])
