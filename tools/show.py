import json,sys
d=json.load(open(sys.argv[1])); c=d['case']
def short(x):
    if isinstance(x,list):
        if len(x)>16 and all(isinstance(i,int) for i in x): return f"<{len(x)} bytes>"
        return [short(i) for i in x]
    if isinstance(x,dict): return {k:short(v) for k,v in x.items()}
    if isinstance(x,str) and len(x)>80: return x[:40]+f"..({len(x)} chars)"
    return x
print(d['message'][:600]); print(json.dumps(short(c),ensure_ascii=False)[:3000])
