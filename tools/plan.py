#!/usr/bin/env python3
"""plan.py ID JSON: sets a property's steps in plan.json and regenerates the tables."""
import json, sys, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = json.load(open(R + "/plan.json"))
p[sys.argv[1]] = json.loads(sys.argv[2])
open(R + "/plan.json", "w").write("{\n" + ",\n".join(' "%s": %s' % (k, json.dumps(v)) for k, v in sorted(p.items())) + "\n}\n")
os.system("python3 " + R + "/tools/props.py")
