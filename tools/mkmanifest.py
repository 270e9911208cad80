#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table in tools/levels.json"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L=json.load(open(V+'/tools/levels.json'))
checks=[]
for pid in sorted(L["claimed"]):
    lv,note=L["claimed"][pid]
    checks.append(dict(property=pid,quick_cmd="python3 check.py %s"%pid,thorough_cmd="VERIF_TIER=thorough python3 check.py %s"%pid,technique="contract-based deductive verification (Verus/Z3) of functions extracted mechanically from /repo on every run; bounded replay of the same contracts on the compiled code",level=lv,level_note=note))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[dict(property=p,reason=r) for p,r in sorted(L["not_applicable"].items())]),open(V+'/MANIFEST.json','w'),indent=1)
