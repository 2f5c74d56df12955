#!/usr/bin/env python3
"""Appends the fix: commits of /repo (argument: 'keyword=ID' pairs) to known-findings.json."""
import json, subprocess, sys
L = subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','2caedbe..HEAD'],text=True).splitlines()
f='/verif/known-findings.json'; k=json.load(open(f)); have=' '.join(k['fixed'])
P=dict(a.split('=') for a in sys.argv[1:])
for l in L:
    h,s=l.split(' ',1)
    if not s.startswith('fix: ') or h in have: continue
    p=[v for q,v in P.items() if q in s]
    if not p: print("no property for", l); continue
    k['fixed'].append("fixed: property=%s %s %s"%(p[0],h,s[5:]))
json.dump(k,open(f,'w'),indent=1)
