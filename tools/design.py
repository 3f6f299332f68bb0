#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,os,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed=json.load(open(here+'/tools/missed.json'))
rows=['| id | property | what it breaks | needs | first missed, then |','|---|---|---|---|---|']
for m in sorted(glob.glob(here+'/seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    c=lambda s:' '.join(s.split()).replace('|','/')
    rows.append(f"| {i} | {d['property']} | {c(d['what_it_breaks'])} | {c(d['needs'])} | {missed.get(i,'')} |")
s=open(here+'/DESIGN.md').read(); k='<!-- seeds -->'
s=s[:s.index(k)]+k+'\n'+'\n'.join(rows)+'\n'
open(here+'/DESIGN.md','w').write(s)
