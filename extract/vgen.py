"""Generate one Verus file from /repo's current source plus the contracts in /verif/contracts/*.vc."""
import sys, json, os, subprocess, re, difflib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cxx2verus import *
import stdlib, configs
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("BATS_REPO","/repo")
ASTDUMP=os.environ.get("ASTDUMP", VERIF+"/build/astdump")
CFLAGS=["-std=c++17","-fopenmp","-I"+VERIF+"/extract/stub","-I"+REPO+"/include","-I/usr/lib/llvm-18/lib/clang/18/include","-w","-ferror-limit=5"]

def dump(driver, out):
    cmd=[ASTDUMP, REPO+"/include", VERIF+"/extract/"+driver]+CFLAGS
    with open(out,"w") as f: r=subprocess.run(cmd,stdout=f,stderr=subprocess.PIPE,text=True,timeout=300)
    return r.returncode==0, r.stderr

class VC:
    pass
def load_vc(name):
    """a .vc file: header lines '@uses a b', '@unit NAME', then contracts"""
    p=VERIF+"/contracts/%s.vc"%name
    v=VC(); v.name=name; v.uses=[]; v.unit=None
    for l in open(p):
        m=re.match(r"@uses\s+(.*)",l)
        if m: v.uses+=m.group(1).split()
        m=re.match(r"@unit\s+(.*)",l)
        if m: v.units=m.group(1).split(); v.unit=v.units[0]   # further units use the contracts as callees
    v.contracts,v.raw=parse_contracts(p)
    cl=[]
    for c in v.contracts:
        cl.append(c)
        if c.opts.get("selfalias"): cl.append(self_variant(c,c.opts["selfalias"]))
    v.contracts=cl
    return v
def self_variant(c,b):
    """the same contract when reference parameter b is the object itself"""
    d=Contract(); d.__dict__.update(c.__dict__); d.opts=dict(c.opts); d.opts["aliasparam"]=b; d.rust=c.rust+"_self"; d.clone=True
    sub=lambda t,r: re.sub(r"\b%s\b(?=[.@),]|$)"%re.escape(b),r,t)
    d.requires=sub(c.requires,"old(this)"); d.ensures=sub(c.ensures,"old(this)")
    d.at={k:[sub(l,"this") for l in ls] for k,ls in c.at.items()}; d.loops={k:sub(t,"this") for k,t in c.loops.items()}
    if c.throws: d.throws=sub(c.throws,"this")
    return d
def all_vcs():
    return [load_vc(f[:-3]) for f in sorted(os.listdir(VERIF+"/contracts")) if f.endswith(".vc")]

HDR="#![allow(unused_imports, unused_mut, unused_variables, unused_parens, unused_assignments, dead_code, unreachable_code, non_snake_case, non_camel_case_types, path_statements, unused_must_use, unused_braces, unused_labels, unused_doc_comments)]"

class Unit:
    def __init__(self, unit, dumpfile):
        self.cfg=configs.UNITS[unit]; self.unit=unit
        self.W=World(json.load(open(dumpfile)),self.cfg); stdlib.install(self.W)
        self.vcs=[v for v in all_vcs() if unit in v.units]
        self.by_rust={}; self.vc_of={}
        for v in self.vcs:
            for c in v.contracts:
                if getattr(c,"clone",False): self.by_rust[c.rust]=c; self.vc_of[c.rust]=v; continue
                if c.key in self.W.contracts: raise Exception("duplicate contract "+c.key)
                if c.rust in self.by_rust: raise Exception("duplicate rust name "+c.rust)
                self.W.contracts[c.key]=c; self.by_rust[c.rust]=c; self.vc_of[c.rust]=v
        lp=VERIF+"/contracts/locals.json"
        self.locals=json.load(open(lp)) if os.path.exists(lp) else {}
    def structs(self):
        out=[]; W=self.W; T=W.T
        for cppname,rustname in self.cfg.get("structs",[]):
            rec=None
            for r in W.records:
                if r["name"]!=cppname: continue
                try:
                    if T.rust({"r":r["name"],"a":r.get("a",[])})==rustname: rec=r; break
                except Unsupported: continue
            if rec is None: raise Exception("record %s not found in dump"%cppname)
            fs=[]
            for f in rec["fields"]:
                try: fs.append("pub %s: %s"%(W.fieldname(f["name"]),T.rust(f["t"])))
                except Unsupported as e: out.append("// field %s.%s not modelled: %s"%(cppname,f["name"],e))
            if cppname in self.cfg.get("copy_records",()): out.append("#[derive(Clone, Copy)]")
            out.append("pub struct %s { %s }"%(self.cfg.get("struct_generics",{}).get(rustname,rustname),", ".join(fs)))
        return out
    def translate(self, c, stub=False):
        """-> (status dict, code or None)"""
        fs=self.W.by_key.get(c.key,[])
        if not fs: return dict(state="missing",key=c.key),None
        f=fs[0]
        # rename map from recorded locals
        self.W.rename.pop(c.rust,None)
        rec=self.locals.get(c.rust)
        t=FnTrans(self.W,f,c)
        try:
            code=t.run()
            if rec is not None and t.locals!=rec:
                mp={}
                if len(rec)==len(t.locals): 
                    for a,b in zip(t.locals,rec):
                        if a!=b: mp.setdefault(a,b)
                else:
                    for op,i1,i2,j1,j2 in difflib.SequenceMatcher(None,t.locals,rec,autojunk=False).get_opcodes():
                        if op=="replace" and i2-i1==j2-j1:
                            for a,b in zip(t.locals[i1:i2],rec[j1:j2]): mp.setdefault(a,b)
                # only a consistent, injective renaming
                names=set(t.locals); mp={a:b for a,b in mp.items() if b not in names}
                if mp and len(set(mp.values()))==len(mp):
                    self.W.rename[c.rust]=mp
                    t=FnTrans(self.W,f,c); code=t.run(); t.notes.append("locals renamed to the recorded names: %s"%mp)
        except Unsupported as e:
            return dict(state="unsupported",why=str(e),key=c.key,loc=f["loc"]),None
        except Exception as e:
            return dict(state="unsupported",why="translator error: %r"%e,key=c.key,loc=f["loc"]),None
        mism=[n for n in t.notes if "not found" in n or "has no invariant" in n]
        return dict(state="ok",key=c.key,loc=f["loc"],notes=t.notes,callees=sorted(self.W.contracts[k].rust for k in t.callees),locals=t.locals,mismatch=mism),code
    def generate(self, roots, stubs=(), noverify_raw=False):
        """roots: list of rust names. returns (text, status, ranges)"""
        status={}; code={}
        todo=list(roots)
        while todo:
            r=todo.pop(0)
            if r in status: continue
            c=self.by_rust[r]
            st,cd=self.translate(c)
            if st["state"]!="ok" or r in stubs:
                if st["state"]=="ok": st["state"]="stubbed"; 
                fs=self.W.by_key.get(c.key,[])
                cd=None
                if fs:
                    try: cd=stub_sig(self.W,fs[0],c)
                    except Unsupported: cd=None
            status[r]=st; 
            if cd: code[r]=cd
            todo+= [x for x in st.get("callees",[]) if x not in status]
        need=set(self.vc_of[r].name for r in status); byname={v.name:v for v in self.vcs}
        work=list(need)
        while work:
            for u in byname[work.pop()].uses:
                if u not in need: need.add(u); work.append(u)
        out=[HDR,"use vstd::prelude::*;","verus! {","global size_of usize == 8;"]+self.cfg.get("header",[])+self.structs()
        for p in self.cfg["preludes"]: out+=open(VERIF+"/contracts/"+p).read().split("\n")
        out.append("} // verus!")
        mods=[v for v in self.vcs if v.name in need]
        for v in mods: out.append("pub use m_%s::*;"%v.name)
        ranges=[]
        for v in mods:
            out+=["pub mod m_%s {"%v.name,"use super::*; use vstd::prelude::*;","verus! {"]
            if v.raw.strip():
                a=len(out)+1; out+=v.raw.split("\n"); ranges.append((a,len(out),"lemmas:"+v.name))
            for c in v.contracts:
                if c.rust in code:
                    a=len(out)+1; out.append("// %s  (%s)"%(c.key,status[c.rust].get("loc"))); out+=code[c.rust].split("\n"); ranges.append((a,len(out),c.rust))
            out+=["} // verus!","} // mod"]
        return "\n".join(out)+"\n", status, ranges, [v.name for v in mods]

def sig_of(W,f,c,code=None):
    t=FnTrans(W,f,c); 
    saved=f["body"]; 
    f=dict(f); f["body"]={"k":"CompoundStmt","c":[]}; f["inits"]=[]
    t=FnTrans(W,f,c)
    c2=Contract(); c2.__dict__.update(c.__dict__); c2.at={}; c2.loops={}; t.c=c2; t.headonly=True
    if f.get("ctor"): f=dict(f); 
    txt=t.run()
    return txt
def head_of(txt):
    ls=txt.split("\n"); i=ls.index("{"); return ls[:i]
def stub_sig(W,f,c):
    h=head_of(sig_of(W,f,c))
    return "\n".join(["#[verifier::external_body]"]+[l for l in h if l.strip() and not l.startswith("#[")]+["{ unimplemented!() }"])
def vac_fn(W,f,c):
    c2=Contract(); c2.__dict__.update(c.__dict__); c2.ensures=""; c2.decreases=""; c2.at={}; c2.loops={}; c2.rust="vac_"+c.rust; c2.attrs=[]
    h=head_of(sig_of(W,f,c2))
    return "\n".join([l for l in h if l.strip() and not l.startswith("#[")]+["{ proof { assert(false); } cpp_vac_end() }"])

def run_verus(path, timeout, extra=(), threads=8):
    cmd=["verus",path,"--crate-type=lib","--triggers-mode","silent","--no-report-long-running","--num-threads",str(threads),"--output-json","--time-expanded"]+([] if "--rlimit" in extra else ["--rlimit","30"])+list(extra)
    try: r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return dict(timeout=True,rc=None,json=None,stderr="",errors=[])
    try: js=json.loads(r.stdout)
    except Exception: js=None
    errs=[]
    cur=None
    for l in r.stderr.split("\n"):
        m=re.match(r"^(error|warning|note)(\[\w+\])?: (.*)",l)
        if m:
            cur=dict(kind=m.group(1),msg=m.group(3),line=None,text=[l]); 
            if m.group(1)=="error": errs.append(cur)
            continue
        if cur is not None:
            cur["text"].append(l)
            m=re.match(r"^\s*--> (.*?):(\d+):\d+",l)
            if m and cur["line"] is None: cur["line"]=int(m.group(2))
    errs=[e for e in errs if not e["msg"].startswith("aborting due to")]
    return dict(timeout=False,rc=r.returncode,json=js,stderr=r.stderr,errors=errs,cmd=" ".join(cmd))

if __name__=="__main__":
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument("unit"); ap.add_argument("-o",default="/tmp/v/gen.rs"); ap.add_argument("--fn",action="append"); ap.add_argument("--vc",action="append"); ap.add_argument("--keys",nargs="?",const=""); ap.add_argument("--nodump",action="store_true"); ap.add_argument("--noverify",action="store_true"); ap.add_argument("--locals",action="store_true")
    ap.add_argument("--stub",action="append",default=[]); ap.add_argument("--rl"); ap.add_argument("--only",action="store_true",help="verify only the named functions; stub the callees")
    a=ap.parse_args()
    cfg=configs.UNITS[a.unit]; df="/tmp/v/%s.json"%cfg["driver"]
    if not a.nodump or not os.path.exists(df):
        ok,err=dump(cfg["driver"],df)
        if not ok: print(err)
    U=Unit(a.unit,df)
    if a.keys is not None:
        for k,v in U.W.by_key.items():
            if a.keys in k: print(len(v),k)
        sys.exit()
    if a.locals:
        lp=VERIF+"/contracts/locals.json"; cur=json.load(open(lp)) if os.path.exists(lp) else {}
        for r,c in U.by_rust.items():
            cur.pop(r,None); U.locals.pop(r,None)
            st,_=U.translate(c)
            if st["state"]=="ok": cur[r]=st["locals"]
            else: print("NOT RECORDED",r,st)
        json.dump(cur,open(lp,"w"),indent=0,sort_keys=True); sys.exit()
    roots=a.fn or ([c.rust for v in U.vcs if v.name in a.vc for c in v.contracts] if a.vc else [r for r in U.by_rust if U.vc_of[r].unit==a.unit])
    stubs=list(a.stub)
    if a.only:
        stubs=[r for r in U.by_rust if r not in roots]
    txt,st,rng,mods=U.generate(roots,stubs)
    open(a.o,"w").write(txt)
    for k,v in st.items():
        if v["state"] not in("ok","stubbed") or v.get("notes") and os.environ.get("N"): print(k,v["state"],v.get("why"),v.get("notes"),v.get("loc"))
        elif v.get("mismatch"): print(k,"MISMATCH",v["mismatch"])
    if not a.noverify:
        ex=[]
        if a.only:
            for m in sorted(set(U.vc_of[r].name for r in roots)): ex+=["--verify-only-module","m_"+m]
        sys.exit(subprocess.call(["verus",a.o,"--crate-type=lib","--triggers-mode","silent","--num-threads","8"]+ex+(["--rlimit",a.rl] if a.rl else [])+(["--time-expanded"] if os.environ.get("T") else [])))
