import sys,subprocess
R='/tmp/r2'
def fix(p,pairs,msg):
    p=R+'/'+p; s=open(p).read()
    for a,b in pairs:
        n=1
        if isinstance(a,tuple): a,n=a
        assert s.count(a)==n,(p,a,s.count(a))
        s=s.replace(a,b)
    open(p,'w').write(s)
    if msg: subprocess.check_call(['git','-C',R,'commit','-qam','fix: '+msg.replace('fix: ','')])
def kf(prop,text):
    h=subprocess.check_output(['git','-C',R,'log','-1','--format=%h'],text=True).strip()
    open('/verif/known_findings.txt','a').write('fixed: property=%s %s %s\n'%(prop,h,text))
