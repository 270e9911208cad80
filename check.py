#!/usr/bin/env python3
import traceback
"""Decide one property: regenerate the Verus program from /repo's current source, discharge every obligation of the
contracts registered for the property (and of every contracted function they call), and replay the contracts on the real code."""
import sys, os, json, time, subprocess, re, threading, tempfile, shutil, hashlib
VERIF=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,VERIF+"/extract")
import vgen, configs
REPO=vgen.REPO
T0=time.time()
def log(*a): print("[%6.1fs]"%(time.time()-T0),*a,flush=True)
KF=VERIF+"/known_findings.txt"

def prop_roots(pid):
    """unit -> rust names of contracts tagged with the property"""
    r={}
    for v in vgen.all_vcs():
        for c in v.contracts:
            if pid in c.props: r.setdefault(v.unit,[]).append(c.rust)
    lem={}
    return r

class Proof:
    def __init__(s): s.status={}; s.verified=0; s.errors=0; s.violations=[]; s.undecided=[]; s.lemma_fail=[]; s.time_ms=0; s.cmds=[]; s.mods=[]; s.trusted=[]; s.vac=dict(checked=0,vacuous=[]); s.smt=[]; s.files=[]; s.bounded=[]; s.err=None

def obligations_failed(errs, ranges, text):
    by={}
    for e in errs:
        fn=None
        for a,b,name in ranges:
            if e["line"] and a<=e["line"]<=b: fn=name
        by.setdefault(fn,[]).append(e)
    return by

VERIF_MSGS=("postcondition not satisfied","precondition not satisfied","invariant not satisfied","assertion failed","possible arithmetic underflow/overflow","possible division by zero","decreases not satisfied","recommendation not met","unable to prove","loop invariant","failed this","possible bit shift","could not prove termination","assert","unreachable","might be")
def is_verif_error(e):
    m=e["msg"]
    if "rlimit" in m.lower() or "resource limit" in m.lower(): return False
    return any(x in m for x in VERIF_MSGS)
def is_rlimit(e): return "rlimit" in e["msg"].lower() or "resource limit" in e["msg"].lower()

def prove(unit, roots, work, budget, P, threads=8):
    cfg=configs.UNITS[unit]
    df=work+"/%s.json"%cfg["driver"]
    if not os.path.exists(df):
        ok,err=vgen.dump(cfg["driver"],df)
        if not ok:
            P.err="extraction of %s failed: %s"%(cfg["driver"],err[:2000]); return
    U=vgen.Unit(unit,df)
    stubs=set(); deadline=time.time()+budget
    for attempt in range(6):
        txt,status,ranges,mods=U.generate(roots,stubs)
        f=work+"/%s_%d.rs"%(unit,attempt); open(f,"w").write(txt)
        left=deadline-time.time()
        if left<15: P.err="out of time"; return
        # vacuity run alongside the first attempt
        r=vgen.run_verus(f,left,threads=threads)
        P.cmds.append(r.get("cmd","verus"))
        if r["timeout"]: P.undecided.append((unit,"verifier timeout")); P.err="verifier timeout"; break
        js=r["json"] or {}
        vr=js.get("verification-results",{})
        by=obligations_failed(r["errors"],ranges,txt)
        compile_fail = vr.get("encountered-vir-error") or "verified" not in vr
        if compile_fail:
            newst=set()
            for fn,es in by.items():
                if fn and not fn.startswith("lemmas:") and fn not in stubs: newst.add(fn); P.undecided.append((fn,"generated text rejected by the front end: "+es[0]["msg"][:300]))
            if newst: stubs|=newst; continue
            P.err="verifier front-end error not attributable to a function: "+r["stderr"][:1500]; log(P.err); break
        if any(is_rlimit(e) for e in r["errors"]) and deadline-time.time()>60:
            # resource limits are not verdicts: retry with a larger budget; an obligation discharged in either run is discharged
            r2=vgen.run_verus(f,deadline-time.time()-20,extra=["--rlimit","120"],threads=threads)
            vr2=(r2["json"] or {}).get("verification-results",{}) if not r2["timeout"] else {}
            if "verified" in vr2:
                by2=obligations_failed(r2["errors"],ranges,txt)
                both=set(by)&set(by2)
                r["errors"]=[e for fn in both for e in (by2[fn] if all(is_rlimit(x) for x in by[fn]) else by[fn])]
                vr=dict(vr2); vr["errors"]=len(both); vr["verified"]=vr2["verified"]+len(set(by2)-both)
                by=obligations_failed(r["errors"],ranges,txt); P.cmds.append(r2.get("cmd","verus"))
        P.verified+=vr.get("verified",0); P.errors+=vr.get("errors",0)
        smt=((js.get("times-ms") or {}).get("smt") or {})
        P.time_ms+=smt.get("total",0) if isinstance(smt.get("total",0),(int,float)) else 0
        for fn,es in by.items():
            if fn is None:
                P.lemma_fail.append(("?",es)); continue
            if fn.startswith("lemmas:"): P.lemma_fail.append((fn,es)); continue
            st=status.get(fn,{})
            ver=[e for e in es if is_verif_error(e)]
            if st.get("mismatch"): P.undecided.append((fn,"annotations no longer match the code (%s); %s"%("; ".join(st["mismatch"]),es[0]["msg"])))
            elif ver and not all(is_rlimit(e) for e in es): P.violations.append((fn,st,es))
            else: P.undecided.append((fn,es[0]["msg"]))
        break
    P.status.update({k:dict(v,unit=unit) for k,v in status.items()}); P.mods+=mods; P.files.append(f)
    for k,v in status.items():
        if v["state"] in("missing","unsupported"): P.undecided.append((k,v.get("why") or v["state"]))
    # trusted base, scanned mechanically
    lines=txt.split("\n")
    for i,l in enumerate(lines):
        if re.search(r"external_body|\bassume\s*\(|\badmit\s*\(|assume_specification|\baxiom\b",l) and not l.strip().startswith("//"):
            j=i
            while j<len(lines)-1 and not re.search(r"\bfn\b",lines[j]): j+=1
            m=re.search(r"fn\s+(\w+)",lines[j]); nm=(m.group(1) if m else l.strip())
            P.trusted.append(nm)
    # vacuity
    left=deadline-time.time()
    if left>20:
        vac=[]
        for r_ in status:
            if status[r_]["state"]!="ok": continue
            c=U.by_rust[r_]
            if not c.requires.strip(): continue
            vac.append((r_,vgen.vac_fn(U.W,U.W.by_key[c.key][0],c)))
        ls=txt.rstrip("\n").split("\n")
        # keep specs, drop exec bodies: reuse generated file, verify only module m_vac
        head=[l for l in ls]
        out=head+["pub mod m_vac {","use super::*; use vstd::prelude::*;","verus! {"]
        rng=[]
        for n,cd in vac:
            a=len(out)+1; out+=cd.split("\n"); rng.append((a,len(out),n))
        a=len(out)+1; out+=["proof fn vac_axioms() { %s assert(false); }"%cfg.get("vac_axioms","")]; rng.append((a,a,"axioms"))
        out+=["} // verus!","} // mod"]
        vf=work+"/%s_vac.rs"%unit; open(vf,"w").write("\n".join(out)+"\n")
        r=vgen.run_verus(vf,left,extra=["--verify-only-module","m_vac","--multiple-errors","0"],threads=threads)
        if not r["timeout"] and r["json"] and "verified" in r["json"].get("verification-results",{}):
            failed=set(obligations_failed(r["errors"],rng,"").keys())
            for _,_,n in rng:
                P.vac["checked"]+=1
                if n not in failed: P.vac["vacuous"].append(n)
        else: P.vac["error"]=(r["stderr"] or "timeout")[:500]

def build_harness(pid, src, work):
    exe=work+"/h_"+pid; 
    flags=["-std=c++17","-O1","-g1","-w","-fopenmp","-fsanitize=address,undefined","-fno-sanitize-recover=all","-D_GLIBCXX_ASSERTIONS","-I"+REPO+"/include","-I"+VERIF+"/harness"]
    extra=re.findall(r"^// FLAGS: (.*)$",open(src).read(),re.M)
    for e in extra: flags+=e.split()
    r=subprocess.run(["g++"]+flags+[src,"-o",exe],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return exe if r.returncode==0 else None, r.stdout

def main():
    pid=sys.argv[1]; tier=os.environ.get("VERIF_TIER","quick"); seed=int(os.environ.get("VERIF_SEED","1") or 1)
    if "--tier" in sys.argv: tier=sys.argv[sys.argv.index("--tier")+1]
    thorough=tier=="thorough"
    os.makedirs(VERIF+"/build/work",exist_ok=True); os.makedirs(VERIF+"/evidence",exist_ok=True)
    work=tempfile.mkdtemp(prefix=pid+"_",dir=VERIF+"/build/work")
    rdir=VERIF+"/evidence/replay"; os.makedirs(rdir,exist_ok=True)
    try: return run(pid,tier,seed,thorough,work,rdir)
    finally: 
        if not os.environ.get("KEEP"): shutil.rmtree(work,ignore_errors=True)

def known(pid):
    out=[]
    if os.path.exists(KF):
        for l in open(KF):
            m=re.match(r"finding: property=(\S+) key=(\S+) (.*)",l.strip())
            if m and m.group(1)==pid: out.append((m.group(2),m.group(3)))
    return out

def run(pid,tier,seed,thorough,work,rdir):
    if not os.path.exists(vgen.ASTDUMP): subprocess.check_call([VERIF+"/setup.sh"])
    roots=prop_roots(pid); P=Proof()
    hs=VERIF+"/harness/%s.cpp"%pid
    H=dict(json=None,err=None)
    def harness():
        if not os.path.exists(hs): H["err"]="no harness"; return
        t=time.time(); exe,outp=build_harness(pid,hs,work); H["build_s"]=round(time.time()-t,1)
        if not exe: H["err"]="harness does not compile against the current tree"; H["build_log"]=outp[-3000:]; return
        H["exe"]=exe
        run_h(exe, 6 if thorough else 1, 600 if thorough else 150)
    def run_h(exe,scale,tm,sd=None):
        out=work+"/h.json"
        env=dict(os.environ,ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048",UBSAN_OPTIONS="print_stacktrace=1",OMP_NUM_THREADS="2")
        subprocess.run([exe,"--seed",str(sd if sd is not None else seed),"--scale",str(scale),"--time",str(tm),"--jobs","6","--out",out]+(["--thorough"] if thorough else []),env=env,cwd=work,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
        try: H["json"]=json.load(open(out),strict=False)
        except Exception as e: H["err"]="harness produced no result: %r"%e
    th=threading.Thread(target=harness); th.start()
    for unit,rs in roots.items():
        try: prove(unit,rs,work,1500 if thorough else 420,P)
        except Exception as e: # a fault of the machinery decides nothing: reported as undecided, never as an alarm
            P.undecided.append((unit,"machinery: %r"%e)); P.err="machinery: %r"%e; log(traceback.format_exc())
    th.join()
    log("proof: %d verified, %d errors; violations %s; undecided %s; lemma %s; vac %s"%(P.verified,P.errors,[v[0] for v in P.violations],P.undecided,[l[0] for l in P.lemma_fail],P.vac))
    # a refused obligation, and nothing found yet: search longer on other seeds
    if (P.violations or P.lemma_fail) and H.get("exe") and H["json"] and not H["json"]["failed"]:
        for sd in (seed+101,seed+202):
            if time.time()-T0<560: run_h(H["exe"],3,110,sd)
            if H["json"] and H["json"]["failed"]: break
    viol=0; lines=[]; exitcode=0
    kfs=known(pid)
    fails=[]
    if H["json"]:
        for t in H["json"]["tests"]:
            if "fail" in t: fails.append(t)
    kfmap=dict(kfs)
    for t in list(fails):
        m=re.match(r"KF_(\w+)$",t["name"])
        if m and m.group(1) in kfmap:
            lines.append("KNOWN-FINDING: property=%s %s"%(pid,kfmap[m.group(1)])); fails.remove(t)
    if fails:
        t=fails[0]; rp=rdir+"/%s.json"%pid
        json.dump(dict(property=pid,kind="failing input on the real code",test=t["name"],case=t["fail"]["case"],seed=seed,contracts=t["contracts"],message=t["fail"]["msg"],input=t["fail"]["input"],stderr=t["fail"].get("stderr"),
            refused_obligations=[dict(function=v[0],where=v[1].get("loc"),obligations=["\n".join(e["text"][:14]) for e in v[2]]) for v in P.violations],
            reproduce="build harness/%s.cpp as in check.py, run with --seed %d --test %s --case %d"%(pid,seed,t["name"],t["fail"]["case"]),all_failing_tests=[x["name"] for x in fails]),open(rp,"w"),indent=1)
        lines.append("VIOLATION property=%s replay=%s"%(pid,rp)); viol=1; exitcode=1
        log("failing input: %s case %d: %s\n   input %s"%(t["name"],t["fail"]["case"],t["fail"]["msg"][:600],t["fail"]["input"][:800]))
        log((t["fail"].get("stderr") or "")[:1500])
    elif P.violations:
        rp=rdir+"/%s.json"%pid
        json.dump(dict(property=pid,kind="proof obligation refused, no failing input found",refused_obligations=[dict(function=v[0],contract=v[1].get("key"),where=v[1].get("loc"),obligations=["\n".join(e["text"][:14]) for e in v[2]]) for v in P.violations]),open(rp,"w"),indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found"%(pid,rp)); viol=1; exitcode=1
        for v in P.violations: log("refused obligation in %s (%s): %s"%(v[0],v[1].get("loc"),"\n".join(v[2][0]["text"][:14])))
    elif H["err"] and H["err"]!="no harness":
        log("ERROR",H["err"],H.get("build_log","")); exitcode=2
    for n,e in P.lemma_fail: log("lemma not proved (%s): %s"%(n,"\n".join(e[0]["text"][:8])))
    und={}
    for f,w in P.undecided: und.setdefault(f,w)
    for f,w in und.items(): log("UNDECIDED (bounded stand-in only): %s: %s"%(f,w[:400]))
    if P.err: log("proof side:",P.err)
    proved=[k for k,v in P.status.items() if v["state"]=="ok" and k not in und and k not in [x[0] for x in P.violations]]
    total=P.verified+P.errors
    cov={"obligations":total+len(und),"discharged":P.verified,
      "checker_cmd":P.cmds[-1] if P.cmds else "none",
      "trusted_base":sorted(set(["verus 0.2026.09.13 / z3","clang 18 AST + extract/astdump.cpp + extract/cxx2verus.py (the translation itself)"]+["trusted wrapper "+x for x in P.trusted])),
      "explanation":"obligations/discharged count verifier items (functions under contract, lemmas, loop obligations grouped per function) as reported by Verus on this run",
      "functions_under_contract":{k:{"source":v.get("loc"),"cxx":v.get("key"),"extraction_notes":v.get("notes")} for k,v in P.status.items() if k in proved},
      "undecided":und,"refused":[v[0] for v in P.violations],"back_end":"Verus -> Z3","solver_ms":P.time_ms,
      "vacuity":P.vac,"generated_sha256":[hashlib.sha256(open(f,"rb").read()).hexdigest() for f in P.files],
      "bounded":{"label":"bounded, not proved: replay of the contracts on the real code","rule":"deterministic cases from (VERIF_SEED, test, case); non-trivial when the generated object has more than one entry/cell","build_s":H.get("build_s"),
        "tests":[{k:t[k] for k in("name","contracts","done","nontrivial")} for t in (H["json"] or {}).get("tests",[])],"capped":(H["json"] or {}).get("capped")},
      "evaluations":sum(t["done"] for t in (H["json"] or {}).get("tests",[])),"distinct_nontrivial":sum(t["nontrivial"] for t in (H["json"] or {}).get("tests",[])),
      "rule":"bounded part: deterministic generated inputs, non-trivial when the object has more than one entry/cell",
      "samples":[t["sample"] for t in (H["json"] or {}).get("tests",[]) if t["sample"]][:5]}
    man=json.load(open(VERIF+"/MANIFEST.json")); level=next((c["level"] for c in man["checks"] if c["property"]==pid),"proof")
    ev={"property":pid,"tier":tier,"seed":seed,"level":level,"coverage":cov,
      "assumptions":json.load(open(VERIF+"/assumptions.json")).get("common",[])+json.load(open(VERIF+"/assumptions.json")).get(pid,[]),
      "wall_s":round(time.time()-T0,1),"violations":viol}
    json.dump(ev,open(VERIF+"/evidence/%s.json"%pid,"w"),indent=1)
    for l in lines: print(l,flush=True)
    log("%s: exit %d; %d functions proved, %d undecided; harness %s cases"%(pid,exitcode,len(proved),len(und),cov["evaluations"]))
    return exitcode
if __name__=="__main__": sys.exit(main())
