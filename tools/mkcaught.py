#!/usr/bin/env python3
"""mkcaught.py ID=KEY ...: records in tools/caught.json which check reported which planted bug (and how)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = V + "/tools/caught.json"; c = json.load(open(f))
for a in sys.argv[1:]:
    i, k = a.split("=", 1); m = json.load(open("%s/seeded/%s/meta.json" % (V, i))); c[i] = dict(property=m["property"], needs=m["needs"], by=k)
json.dump(c, open(f, "w"), indent=1, sort_keys=True)
