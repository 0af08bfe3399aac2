import json,sys
d=json.load(open(sys.argv[1]))
print(d['clause'],d['step'])
try:
    a,b=json.loads(d['expected']),json.loads(d['observed'])
    if isinstance(a,dict):
        for k in a:
            if a[k]!=b.get(k): print(k,a[k],b.get(k))
    else: print(a,'\n',b)
except Exception as e: print(repr(e)[:50],d['expected'][:700],'\n',str(d['observed'])[:700])
for c in d['case']['confs']: print(json.dumps(c)[:1500])
for c in d['case']['steps']: print(json.dumps(c)[:260])
