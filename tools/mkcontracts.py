#!/usr/bin/env python3
"""CONTRACTS.md: every contract, the C++ function it is on, the properties it decides."""
import re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in sorted(glob.glob(V+'/contracts/*.vc')):
    unit='';cur=None
    for l in open(f):
        m=re.match(r'@unit (\w+)',l)
        if m: unit=m.group(1)
        m=re.match(r'@fn (.*) as (\w+)',l)
        if m: cur=[unit,os.path.basename(f),m.group(2),m.group(1),'']; rows.append(cur)
        m=re.match(r'@prop (.*)',l)
        if m and cur: cur[4]=m.group(1).strip()
out=["# Contracts on the real code (generated by tools/mkcontracts.py)","",
"Unit `field`: include/field (ModP, Z/2, Rational). Unit `util`: permutations, sorted lists, barcodes (concrete types). Unit `la`: everything else, over an abstract field F (the field axioms are the only facts used; ModP discharges them in unit `field`).","",
"%d contracts. An empty property column means the contract is a callee of others."%len(rows),"","| unit | file | contract | C++ function | properties |","|---|---|---|---|---|"]
for r in rows: out.append("| %s | %s | `%s` | `%s` | %s |"%(r[0],r[1],r[2],r[3].replace('|','\\|'),r[4]))
open(V+'/CONTRACTS.md','w').write("\n".join(out)+"\n"); print(len(rows))
