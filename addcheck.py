import json,sys
c=json.load(open('checks.json'))
pid=sys.argv[1]; spec=json.loads(sys.argv[2])
spec.setdefault("technique","bounded-exhaustive explicit-state exploration of the implementation against a reference model")
c[pid]={**spec}
with open('checks.json','w') as f: f.write("{\n"+",\n".join(" %s: %s"%(json.dumps(k),json.dumps(v)) for k,v in sorted(c.items()))+"\n}\n")
