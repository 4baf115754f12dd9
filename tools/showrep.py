import json,sys,re
d=json.load(open(sys.argv[1]))
n=int(sys.argv[2]) if len(sys.argv)>2 else 60
print(json.dumps(d['plan']))
L=d['violation'].split("\n")
print(L[0])
L=[re.sub(r"MASTER_PORT.*","",x) for x in L[1:]]
print("\n".join(x[:300] for x in L[-n:]))
