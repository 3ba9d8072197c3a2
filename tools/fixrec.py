#!/usr/bin/env python3
"""Developer tool: fixrec.py <property> <n>: records the last n /repo commits as fixed findings."""
import json, subprocess, sys
p='/verif/known_findings.json'; d=json.load(open(p)); f=d['fixed']
for l in reversed(subprocess.check_output(['git','-C','/repo','log','--oneline','-'+sys.argv[2]]).decode().splitlines()):
    e="fixed: property=%s %s %s"%(sys.argv[1], l.split()[0], l.split('fix: ')[1])
    if e not in f: f.append(e); print(e)
json.dump(d,open(p,'w'),indent=1)
