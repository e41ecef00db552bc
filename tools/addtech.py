import json, sys
p = "/verif/tools/techniques.json"; d = json.load(open(p)); d[sys.argv[1]] = dict(technique=sys.argv[2], level="model_checking", note=sys.argv[3])
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
