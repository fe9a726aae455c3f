import json,sys
p='/verif/tools/checks.json'; d=json.load(open(p)); d.update(json.loads(sys.stdin.read())); json.dump(d,open(p,'w'),indent=1,sort_keys=True)
