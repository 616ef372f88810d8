import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open(sys.argv[1]))
def ids(x):
    for k in ("stable","passed","tests","stable_pass"):
        if k in x: return set(x[k])
    return set(x)
p=ids(r); m=[t for t in ids(b) if t not in p]
print("ok" if not m else "FAIL:"+",".join(m[:4]))
