#!/usr/bin/env python3
"""record_fix.py PROPERTY COMMIT... : add 'fixed:' lines to KNOWN_FINDINGS.txt from /repo's commit messages"""
import subprocess,sys
p='/verif/KNOWN_FINDINGS.txt'
t=open(p).read()
for c in sys.argv[2:]:
    h,m=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h%x00%s',c],text=True).strip().split('\0')
    assert m.startswith('fix: ')
    if ' '+h+' ' in t: continue
    t+=f"fixed: property={sys.argv[1]} {h} {m[5:]}\n"
open(p,'w').write(t)
