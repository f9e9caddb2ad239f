import json, sys
d = json.load(open(sys.argv[1]))
print(d["kind"], d["message"][:600])
def s(x):
    return json.dumps(x)
p = d["program"]
for k, v in p.items():
    if isinstance(v, list):
        print(k + ":")
        for e in v:
            print("   ", s(e)[:700])
    else:
        print(k, s(v)[:700])
