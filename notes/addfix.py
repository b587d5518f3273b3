#!/usr/bin/env python3
"""addfix.py PROPERTY 'what failed': records /repo's last commit as a repaired defect"""
import json,sys,subprocess
f='/verif/known_findings.json'; k=json.load(open(f))
h=subprocess.run(['git','-C','/repo','rev-parse','--short','HEAD'],capture_output=True,text=True).stdout.strip()
n=max(int(e['id'][1:]) for e in k)+1
k.append({"id":"F%02d"%n,"property":sys.argv[1],"status":"fixed","text":"fixed: property=%s %s %s"%(sys.argv[1],h,sys.argv[2])})
json.dump(k,open(f,'w'),indent=1)
