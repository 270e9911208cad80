import os,subprocess,json,shutil,sys
SEED='/verif/seeded'
def sh(c,cwd=None,env=None): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
DEMO='''#!/bin/bash
# run with cwd at the repository root; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -fopenmp -I"$PWD/include" "$here/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 100 ./demo
'''
def seed(id,prop,edits,needs,breaks,demo,pre='#include <bats.hpp>\n',check=True):
    """edits: list of (path,[(old,new)])"""
    d=SEED+'/'+id; os.makedirs(d,exist_ok=True)
    wt='/tmp/seedwt'; 
    if os.path.exists(wt): shutil.rmtree(wt)
    sh('cp -a /repo '+wt)
    for p,pairs in edits:
        f=wt+'/'+p; s=open(f).read()
        for a,b in pairs:
            n=1
            if isinstance(a,tuple): a,n=a
            assert s.count(a)==n,(p,a,s.count(a)); s=s.replace(a,b)
        open(f,'w').write(s)
    diff=subprocess.run(['git','-C',wt,'diff'],stdout=subprocess.PIPE,text=True).stdout; open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(pre+'#include <iostream>\n#include <cstdlib>\n#define REQ(c) do{ if(!(c)){ std::cerr<<"FAILED: " #c " line "<<__LINE__<<"\\n"; std::exit(1);} }while(0)\n'+demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r0=sh(d+'/demo.sh',cwd='/repo'); r1=sh(d+'/demo.sh',cwd=wt)
    ok = r0.returncode==0 and r1.returncode not in(0,3)
    print(id, 'clean',r0.returncode,'patched',r1.returncode, 'OK' if ok else 'BAD'); 
    if not ok: print(r0.stdout[-1500:]); print(r1.stdout[-1500:])
    if ok:
        b=open('/opt/vp/bats.py').read().replace('REPO = "/repo"','REPO = "'+wt+'"'); open('/tmp/bats_wt.py','w').write(b)
        r=sh('python3 /tmp/bats_wt.py build && echo \'{"passed": [], "failed": []}\' > /tmp/o_wt.json; python3 /tmp/bats_wt.py test /tmp/o_wt.json')
        o=json.load(open('/tmp/o_wt.json')); st=json.load(open('/opt/vp/BASELINE.json'))['stable']; miss=[t for t in st if t not in o['passed']]
        print('   stable tests missing:',miss[:4], len(miss)); ok=not miss
        if not ok: print(r.stdout[-600:])
    if ok and check:
        r=sh('cd /verif && REPO=%s timeout 900 ./hrun.sh %s'%(wt,prop)); import re
        print('  harness:',re.findall(r'"failed": [a-z]+',r.stdout)[:1],[l.strip()[:160] for l in r.stdout.splitlines() if '"fail":' in l and not re.search(r'"fail": (""|null|\[\])',l)][:3], r.stdout[-200:].replace('\n',' ')); sys.stdout.flush()
    shutil.rmtree(wt)
