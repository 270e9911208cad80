"""cxx2verus: syntax-directed translation of instantiated C++ function bodies (JSON from astdump)
into Verus exec functions, with contracts attached from /verif/contracts/*.vc.

The translation is structural: one Rust statement / expression per C++ statement / expression.
What it drops or abstracts is recorded per function in FnTrans.notes.
"""
import json, re, sys, os

class Unsupported(Exception):
    pass

RUST_KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try old int nat choose forall exists is has spec proof exec assume assert requires ensures invariant decreases opens via when tracked ghost".split())

INT = {"_Bool":"bool","unsigned long":"usize","long":"i64","int":"i32","unsigned int":"u32","bool":"bool",
       "unsigned long long":"u64","long long":"i64","short":"i16","unsigned short":"u16","unsigned char":"u8","char":"i8","signed char":"i8"}
BITS = {"usize":(0,2**64-1),"u64":(0,2**64-1),"i64":(-2**63,2**63-1),"i32":(-2**31,2**31-1),"u32":(0,2**32-1),"i16":(-2**15,2**15-1),"u16":(0,65535),"u8":(0,255),"i8":(-128,127)}

class V:
    """translated expression. kind: val | place | iter | void | lambda"""
    __slots__ = ("code","kind","ty","cont","stable","isref","extra")
    def __init__(s, code, kind="val", ty=None, cont=None, stable=False, isref=None, extra=None):
        s.code=code; s.kind=kind; s.ty=ty; s.cont=cont; s.stable=stable; s.isref=isref; s.extra=extra

class Types:
    def __init__(self, config):
        self.c = config         # dict: records: {name: rustname}, field: set(names), fieldname
    def rec(self, t):
        return t.get("r") if isinstance(t, dict) else None
    def strip(self, t):
        while isinstance(t, dict) and "ref" in t: t = t["ref"]
        return t
    def is_iter(self, t):
        t = self.strip(t)
        if isinstance(t,dict) and "ptr" in t: return bool(self.c.get("ptr_iter"))
        r = self.rec(t)
        return r in ("__gnu_cxx::__normal_iterator","std::_Bit_iterator","std::_Bit_const_iterator")
    def is_field(self, t):
        t = self.strip(t)
        return self.rec(t) in self.c["field"]
    def is_void(self, t): return t == "void"
    def is_copy(self, t):
        t = self.strip(t)
        if isinstance(t, str): return t in INT or t in ("double","float")
        if self.is_iter(t) or self.is_field(t): return True
        r = self.rec(t)
        if r in self.c.get("copy_records", ()): return True
        if r in ("std::pair","std::tuple"):
            a = t["a"]
            if r == "std::tuple": a = a[0]["pack"] if a and isinstance(a[0], dict) and "pack" in a[0] else a
            return all(self.is_copy(x) for x in a)
        return False
    def rust(self, t):
        t = self.strip(t)
        if isinstance(t, str):
            if t in INT: return INT[t]
            if t == "void": return "()"
            if t in self.c.get("builtin",{}): return self.c["builtin"][t]
            raise Unsupported("type %s" % t)
        if self.is_field(t): return self.c["fieldname"]
        if self.is_iter(t): return "usize"
        r = self.rec(t)
        if r is None: raise Unsupported("type %s" % json.dumps(t))
        if r == "std::vector" : return "Vec<%s>" % self.rust(t["a"][0])
        if r == "std::pair": return "(%s, %s)" % (self.rust(t["a"][0]), self.rust(t["a"][1]))
        if r == "std::tuple":
            a = t["a"][0]["pack"] if t["a"] and isinstance(t["a"][0], dict) and "pack" in t["a"][0] else t["a"]
            return "(" + ", ".join(self.rust(x) for x in a) + ",)"
        if r == "std::map" : return "CppMap<%s, %s>" % (self.rust(t["a"][0]), self.rust(t["a"][1]))
        if r == "std::unordered_map" : return "CppMap<%s, %s>" % (self.rust(t["a"][0]), self.rust(t["a"][1]))
        if r == "std::set" or r == "std::unordered_set": return "CppSet<%s>" % (self.rust(t["a"][0]))
        if r in self.c["records"]:
            return self.c["records"][r](self, t) if callable(self.c["records"][r]) else self.c["records"][r]
        raise Unsupported("type %s" % r)

def fnkey(T, f):
    """key of a function: qualified name without template args + rust types of params (+ const)"""
    q = qname(f)
    if f.get("rec"):
        try: q = T.rust(f["rec"]) + "::" + f["name"].split("<")[0 if "operator" not in f["name"] else slice(None)] if "operator" not in f["name"] else T.rust(f["rec"]) + "::" + f["name"]
        except Unsupported: pass
        if f.get("ctor"): q = q.rsplit("::",1)[0] + "::new"
    ps = []
    for p in f["params"]:
        t = p["t"]
        try: s = T.rust(t)
        except Unsupported: s = "?"
        if isinstance(t, dict) and "ref" in t and not t["const"] and not T.is_iter(t): s = ("&&" if t.get("rv") else "&mut ") + s
        ps.append(s)
    return q + "(" + ", ".join(ps) + ")" + (" const" if f.get("const") else "")

def strip_targs(q):
    # remove balanced <...> except in operator names
    i = q.rfind("operator")
    head, tail = (q[:i], q[i:]) if i >= 0 else (q, "")
    out=""; d=0
    for ch in head:
        if ch=="<": d+=1
        elif ch==">": d-=1
        elif d==0: out+=ch
    return out + tail

def qname(f):
    return strip_targs(f["q"]) if "operator" in f["q"] else re.sub(r"<.*>", "", f["q"])

class Contract:
    def __init__(s):
        s.key=None; s.rust=None; s.requires=""; s.ensures=""; s.loops={}; s.at={}; s.attrs=[]; s.opts={}; s.decreases=""; s.generics=None; s.file=None; s.line=0; s.group=None; s.props=[]; s.throws=None

def parse_contracts(path):
    """contract file format; see DESIGN.md"""
    res=[]; raw=[]
    cur=None; sect=None
    def put(line):
        if sect is None: return
        k=sect
        if k[0]=="req": cur.requires+=line+"\n"
        elif k[0]=="ens": cur.ensures+=line+"\n"
        elif k[0]=="loop": cur.loops[k[1]]=cur.loops.get(k[1],"")+line+"\n"
        elif k[0]=="at": cur.at.setdefault(k[1],[]).append(line)
        elif k[0]=="raw": raw.append(line)
        elif k[0]=="dec": cur.decreases+=line+"\n"
    for n,line in enumerate(open(path),1):
        line=line.rstrip("\n")
        m=re.match(r"@(\w+)\s*(.*)$", line)
        if m:
            d,a=m.group(1),m.group(2).strip()
            if d=="fn":
                cur=Contract(); cur.file=os.path.basename(path); cur.line=n
                mm=re.match(r"(.*)\s+as\s+(\w+)\s*$", a); cur.key=mm.group(1).strip(); cur.rust=mm.group(2)
                res.append(cur); sect=None
            elif d=="requires": sect=("req",)
            elif d=="ensures": sect=("ens",)
            elif d=="decreases": sect=("dec",)
            elif d=="loop": sect=("loop",int(a))
            elif d=="at": sect=("at",a)
            elif d=="opt":
                for kv in a.split():
                    k,_,v=kv.partition("="); cur.opts[k]=v or True
                sect=None
            elif d=="throws": cur.throws=a; sect=None
            elif d=="attr": cur.attrs.append(a); sect=None
            elif d=="rust": sect=("raw",)
            elif d=="end": sect=None
            else: 
                if d not in ("unit","uses","prop"): raise Exception("%s:%d bad directive %s"%(path,n,d))
                if d=="prop" and cur is not None: cur.props+=a.split()
        else: put(line)
    return res, "\n".join(raw)

class FnTrans:
    def __init__(self, W, f, contract):
        self.W=W; self.T=W.T; self.f=f; self.c=contract
        self.lines=[]; self.ind=1; self.tmp=0; self.nloop=0; self.nif=0; self.ncall={}; self.notes=[]
        self.env={}; self.used_loops=set(); self.used_at=set(); self.stack=[]; self.inl=[]
        self.locals=[]; self.callees=set(); self.modified=None
    # ---------- emission
    def emit(self, s):
        self.lines.append("    "*self.ind + s)
    def raw(self, txt):
        for l in txt: self.lines.append("    "*self.ind + l.strip() if l.strip() else "")
    def at(self, anchor):
        if anchor in self.c.at:
            self.used_at.add(anchor); self.raw(self.subst(self.c.at[anchor]))
    def subst(self, lines):
        return lines
    def fresh(self, p="t"):
        self.tmp+=1; return "%s__%d"%(p,self.tmp)
    def note(self, s):
        if s not in self.notes: self.notes.append(s)
    def name(self, n, vid):
        if n in RUST_KW or n.startswith("_") and n=="_": n=n+"_"
        if not n: n="anon_%d"%vid
        return self.W.rename.get(self.c.rust,{}).get(n, n)
    # ---------- analysis of modified variables
    def bad(self, n, why):
        raise Unsupported("%s (line %s, %s)" % (why, n.get("l") if isinstance(n,dict) else "?", n.get("k") if isinstance(n,dict) else "?"))
    # ---------- expressions
    def ev(self, n):
        m=getattr(self, "x_"+n["k"], None)
        if m is None: self.bad(n, "expression kind not supported")
        return m(n)
    def rv(self, n):
        """evaluate to rvalue V"""
        v=self.ev(n)
        return v
    def owned(self, n):
        """evaluate to code producing an owned value (copying non-Copy lvalues)"""
        v=self.ev(n)
        return self.own(v, n.get("t"))
    def own(self, v, t=None):
        t = t if t is not None else v.ty
        if v.kind=="iter": return v.code
        if v.kind=="place" and not self.T.is_copy(t): return "cpp_copy(%s)"%self.refto(v)
        return v.code
    def refto(self, v, mut=False):
        if v.isref and v.isref in ("&","&mut"):
            base=v.code[2:-1] # strip (*x)
            return base
        return ("&mut " if mut else "&")+v.code
    def evlist(self, nodes, fn=None):
        """evaluate operands left to right, hoisting earlier unstable ones if later ones emit statements"""
        res=[]; marks=[]
        for n in nodes:
            marks.append(len(self.lines))
            res.append((fn or self.ev)(n) if n is not None else None)
        end=len(self.lines)
        # hoist
        for i in range(len(res)-2,-1,-1):
            pos=marks[i+1]
            if pos<len(self.lines) and end>marks[i+1]:
                v=res[i]
                if isinstance(v,V) and v.kind in("val","iter") and not v.stable and not re.match(r"^[\d]+\w*$", v.code):
                    t=self.fresh()
                    self.lines.insert(pos, "    "*self.ind+"let %s = %s;"%(t,v.code))
                    v.code=t; v.stable=True
                elif isinstance(v,V) and v.kind=="place" and self.T.is_copy(v.ty) and nodes[i].get("k")!="DeclRefExpr_lv" and not nodes[i].get("lv"):
                    t=self.fresh()
                    self.lines.insert(pos, "    "*self.ind+"let %s = %s;"%(t,v.code))
                    v.code=t; v.kind="val"; v.stable=True
        return res
    def x_IntegerLiteral(self, n):
        t=self.T.rust(n["t"]); return V(n["v"]+t if t!="bool" else ("true" if n["v"]!="0" else "false"),ty=n["t"],stable=True)
    def x_CXXBoolLiteralExpr(self,n): return V("true" if n["v"] else "false",ty=n["t"],stable=True)
    def x_FloatingLiteral(self,n): return V("cpp_flit(%s)"%json.dumps(n["v"]),ty=n["t"],stable=True)
    def x_SubstNonTypeTemplateParmExpr(self,n):
        tp=self.W.T.c.get("tparams",{})
        if n["name"] in tp:
            return V("(%s as %s)"%(tp[n["name"]][0], self.T.rust(n["t"])) if tp[n["name"]][1]!=self.T.rust(n["t"]) else tp[n["name"]][0], ty=n["t"],stable=True)
        return self.ev(n["c"][0])
    def x_DeclRefExpr(self,n):
        d=n["d"]
        if d["id"] in self.env:
            b=self.env[d["id"]]
            if b.kind=="iter": return V(b.code,"iter",n["t"],cont=b.cont)
            return V(b.code,b.kind,b.ty if b.ty is not None else n["t"],stable=b.stable,isref=b.isref,extra=b.extra, cont=b.cont)
        g=self.W.globals_.get(strip_targs(d["q"]))
        if g: return V(g,ty=n["t"],stable=True)
        self.bad(n,"unknown variable %s"%d["q"])
    def x_CXXThisExpr(self,n):
        b=self.env["this"]; return V(b.code,"place",n["t"].get("ptr") if isinstance(n["t"],dict) else None,isref=b.isref)
    def field(self, base, name, t):
        if base.kind=="val" and not re.match(r"^[\w.\[\]]+$", base.code):
            tmp=self.fresh(); self.emit("let %s = %s;"%(tmp,base.code)); base=V(tmp,"place",base.ty)
        r=self.T.rec(self.T.strip(base.ty)) if base.ty is not None else None
        if r=="std::pair" or name in("first","second") and r in(None,"std::pair"):
            name={"first":"0","second":"1"}[name]
        code=base.code
        if base.isref=="&" or base.isref=="&mut": code=base.code[2:-1]
        return V("%s.%s"%(code, self.W.fieldname(name)), "place", t)
    def x_MemberExpr(self,n):
        if n["m"]["dk"]=="Var":
            g=self.W.globals_.get(strip_targs(n["m"]["q"]))
            if g: return V(g,ty=n["t"],stable=True)
        base=self.ev(n["c"][0])
        if base.kind=="iter": base=self.deref_iter(base)
        return self.field(base, n["m"]["name"], n["t"])
    def deref_iter(self, it, t=None):
        if it.cont is None: raise Unsupported("iterator with unknown container")
        return V("%s[%s]"%(it.cont.code if it.cont.isref is None else it.cont.code[2:-1], it.code),"place",t)
    def conv_int(self, v, src, dst, n):
        s=self.T.rust(src); d=self.T.rust(dst)
        if s==d: return V(v.code,"val",dst,stable=v.stable)
        m=re.match(r"^(-?\d+)(%s)$"%s, v.code) if s!="bool" else None
        m2=re.match(r"^\(-(\d+)(%s)\)$"%s, v.code) if s!="bool" else None
        if m or m2:
            x=int(m.group(1)) if m else -int(m2.group(1))
            lo,hi=BITS[d]
            x=x%(hi-lo+1)
            if x>hi: x-=(hi-lo+1)
            return V("%d%s"%(x,d) if x>=0 else "(%d%s)"%(x,d),"val",dst,stable=True)
        if s=="bool": return V("(if %s {1%s} else {0%s})"%(v.code,d,d),"val",dst,stable=v.stable)
        ls,hs=BITS[s]; ld,hd=BITS[d]
        if ls>=ld and hs<=hd: return V("(%s as %s)"%(v.code,d),"val",dst,stable=v.stable)
        return V("cpp_cast_%s_%s(%s)"%(s,d,v.code),"val",dst,stable=v.stable)
    def cast(self,n):
        ck=n.get("ck")
        c=n["c"][0]
        if ck in("LValueToRValue","NoOp","ConstructorConversion","FunctionToPointerDecay","UncheckedDerivedToBase","DerivedToBase","UserDefinedConversion","ArrayToPointerDecay"):
            v=self.ev(c)
            if ck=="LValueToRValue" and v.kind=="place" and self.T.is_copy(n["t"]):
                return V(v.code,"place",n["t"],isref=v.isref)
            return v
        if ck=="IntegralCast":
            return self.conv_int(self.ev(c), c["t"], n["t"], n)
        if ck=="IntegralToBoolean":
            v=self.ev(c); return V("(%s != 0)"%v.code,"val",n["t"],stable=v.stable)
        if ck=="ToVoid":
            v=self.ev(c); return V("()","void")
        if ck in("IntegralToFloating","FloatingCast","FloatingToIntegral"):
            v=self.ev(c); 
            if ck=="FloatingCast": return V(v.code,"val",n["t"],stable=v.stable)
            return V("cpp_%s_%s(%s)"%("i2f" if ck=="IntegralToFloating" else "f2i", self.T.rust(c["t"]) if ck=="IntegralToFloating" else self.T.rust(n["t"]), v.code),"val",n["t"],stable=v.stable)
        self.bad(n,"cast %s"%ck)
    x_ImplicitCastExpr=x_CXXStaticCastExpr=x_CStyleCastExpr=x_CXXFunctionalCastExpr=lambda self,n:self.cast(n)
    def x_UnaryOperator(self,n):
        op=n["op"]; c=n["c"][0]
        if op in("++","--"):
            v=self.ev(c)
            return self.incdec(v,op,n["postfix"],n["t"])
        v=self.ev(c)
        if op=="!": return V("!(%s)"%v.code,ty=n["t"],stable=v.stable)
        if op=="-":
            m=re.match(r"^(\d+)(i\d+|isize)$", v.code)
            if m: return V("(-%s)"%v.code,ty=n["t"],stable=True)
            return V("(-%s)"%v.code,ty=n["t"],stable=v.stable)
        if op=="+": return v
        if op=="~": return V("(!%s)"%v.code,ty=n["t"],stable=v.stable)
        if op=="*":
            if v.kind=="iter": return self.deref_iter(v,n["t"])
            return V(v.code,"place",n["t"],isref=v.isref)   # *this
        self.bad(n,"unary %s"%op)
    def incdec(self,v,op,postfix,t):
        o="+" if op=="++" else "-"
        if v.kind not in("place","iter"): raise Unsupported("++ on rvalue")
        one="1"
        asg = self.arith(v.code, o, one, self.T.rust(t) if not v.kind=="iter" else "usize")
        if postfix:
            if getattr(self,"discard",False):
                self.emit("%s = %s;"%(v.code,asg)); return V(v.code,v.kind,t,cont=v.cont)
            tmp=self.fresh(); self.emit("let %s = %s;"%(tmp,v.code)); self.emit("%s = %s;"%(v.code,asg))
            return V(tmp,"iter" if v.kind=="iter" else "val",t,cont=v.cont,stable=True)
        self.emit("%s = %s;"%(v.code,asg))
        return V(v.code,v.kind,t,cont=v.cont)
    def arith(self,a,o,b,ty):
        if self.c.opts.get("wrap") and ty in("u32","usize","u64") and o in("+","-","*"):
            return "%s.wrapping_%s(%s)"%(a if re.match(r"^[\w.]+$",a) else "(%s)"%a,{"+":"add","-":"sub","*":"mul"}[o],b)
        return "%s %s %s"%(a,o,b)
    def x_BinaryOperator(self,n):
        op=n["op"]; a,b=n["c"]
        if op=="=": return self.assign(n,a,b)
        if op==",":
            self.stmt_expr(a); return self.ev(b)
        if op in("&&","||"):
            va=self.ev(a)
            mark=len(self.lines); vb=self.ev(b)
            pre=self.lines[mark:]
            if pre:
                del self.lines[mark:]
                t=self.fresh("c")
                self.emit("let mut %s: bool = %s;"%(t,va.code))
                self.emit("if %s%s {"%("" if op=="&&" else "!",t)); self.lines+=pre; self.emit("%s = %s;"%(t,vb.code)); self.emit("}")
                return V(t,ty=n["t"],stable=True)
            return V("(%s %s %s)"%(va.code,op,vb.code),ty=n["t"],stable=va.stable and vb.stable)
        va,vb=self.evlist([a,b])
        if va.kind=="iter" or vb.kind=="iter": return self.iter_op(op,va,vb,n["t"])
        st=va.stable and vb.stable
        if op in("==","!=","<",">","<=",">="):
            if self.isfloat(a["t"]): return V("cpp_f%s(%s, %s)"%({"==":"eq","!=":"ne","<":"lt",">":"gt","<=":"le",">=":"ge"}[op],va.code,vb.code),ty=n["t"],stable=st)
            return V("(%s %s %s)"%(va.code,op,vb.code),ty=n["t"],stable=st)
        ty=self.T.rust(n["t"])
        if self.isfloat(n["t"]): return V("cpp_f%s(%s, %s)"%({"+":"add","-":"sub","*":"mul","/":"div"}[op],va.code,vb.code),ty=n["t"],stable=st)
        if op in("+","-","*"): return V("(%s)"%self.arith(va.code,op,vb.code,ty),ty=n["t"],stable=st)
        if op in("/","%"):
            if ty.startswith("i"):
                return V("cpp_%s_%s(%s, %s)"%({"/":"div","%":"rem"}[op],ty,va.code,vb.code),ty=n["t"],stable=st)
            return V("(%s %s %s)"%(va.code,op,vb.code),ty=n["t"],stable=st)
        if op in("&","|","^","<<",">>"): return V("(%s %s %s)"%(va.code,op,vb.code),ty=n["t"],stable=st)
        self.bad(n,"binary %s"%op)
    def isfloat(self,t): return self.T.strip(t) in("double","float")
    def iter_op(self,op,va,vb,t):
        if op=="-" and va.kind=="iter" and vb.kind=="iter":
            self.same_cont(va,vb)
            return V("cpp_idiff(%s, %s)"%(va.code,vb.code),ty="long")
        if op in("+","-"):
            it,o=(va,vb) if va.kind=="iter" else (vb,va)
            oc=self.iter_off(o)
            if oc[0]=="-": op={"+":"-","-":"+"}[op]; oc=oc[1:]
            return V("(%s %s %s)"%(it.code,op,oc),"iter",it.ty,cont=it.cont)
        if op in("==","!=","<",">","<=",">="):
            self.same_cont(va,vb); return V("(%s %s %s)"%(va.code,op,vb.code),ty="bool")
        raise Unsupported("iterator op %s"%op)
    def same_cont(self,va,vb):
        if va.cont is None or vb.cont is None or va.cont.code==vb.cont.code: return
        # same text up to the names of inlined index parameters: their equality becomes a proof obligation
        ta,tb=re.split(r"([\w.]+)",va.cont.code),re.split(r"([\w.]+)",vb.cont.code)
        if len(ta)==len(tb):
            df=[(x,y) for x,y in zip(ta,tb) if x!=y]
            if all(re.match(r"^\w+__\d+$|^mapk\d+$",x) or re.match(r"^\w+__\d+$|^mapk\d+$",y) for x,y in df) and all(re.match(r"^[\w.]+$",z) for x,y in df for z in (x,y)) :
                for x,y in dict.fromkeys(df): self.emit("assert(%s == %s); // same container"%(x,y))
                return
        raise Unsupported("iterators of different containers %s / %s"%(va.cont.code,vb.cont.code))
    def iter_off(self,o):
        # difference_type argument (i64): strip a widening/cast from usize
        if o.ty is not None and self.T.strip(o.ty) in("unsigned long","unsigned int"): return o.code if self.T.strip(o.ty)=="unsigned long" else "(%s as usize)"%o.code
        m=re.match(r"^cpp_cast_usize_i64\((.*)\)$",o.code)
        if m: return m.group(1) if re.match(r"^[\w.]+$",m.group(1)) else "(%s)"%m.group(1)
        m=re.match(r"^\(?(-?)(\d+)i64\)?$",o.code)
        if m: return m.group(1)+m.group(2)+"usize"
        m=re.match(r"^\((\w+) as i64\)$",o.code)
        return "cpp_cast_i64_usize(%s)"%o.code
    def assign(self,n,a,b):
        # right operand is sequenced before left in C++17
        va_probe=a
        if self.T.is_iter(a["t"]):
            vb=self.ev(b); va=self.ev(a)
            return self.iter_assign(va,vb,a)
        mark=len(self.lines)
        vb=self.owned(b); va=self.ev(a)
        self.emit("%s = %s;"%(va.code,vb))
        return va
    def iter_assign(self,va,vb,a):
        if va.kind!="iter": raise Unsupported("iterator assignment to non-variable")
        self.same_cont(va,vb)
        self.emit("%s = %s;"%(va.code,vb.code)); return va
    def x_CompoundAssignOperator(self,n):
        a,b=n["c"]; op=n["op"][:-1]
        vb=self.ev(b); va=self.ev(a)
        if va.kind=="iter":
            self.emit("%s = %s;"%(va.code,self.iter_op(op,va,vb,None).code)); return va
        ta=self.T.rust(a["t"])
        if self.isfloat(a["t"]): raise Unsupported("float compound")
        ct=self.T.rust(n["ct"])
        if ct!=ta:
            l=self.conv_int(V(va.code,ty=a["t"]),a["t"],n["clt"],n)
            if op in("+","-","*"): r="(%s)"%self.arith(l.code,op,vb.code,ct)
            elif op in("/","%") and ct.startswith("i"): r="cpp_%s_%s(%s, %s)"%({"/":"div","%":"rem"}[op],ct,l.code,vb.code)
            else: r="(%s %s %s)"%(l.code,op,vb.code)
            r=self.conv_int(V(r),n["ct"],a["t"],n).code
        else:
            if op in("+","-","*"): r=self.arith(va.code,op,vb.code,ta)
            elif op in("/","%") and ta.startswith("i"): r="cpp_%s_%s(%s, %s)"%({"/":"div","%":"rem"}[op],ta,va.code,vb.code)
            else: r="%s %s %s"%(va.code,op,vb.code)
        self.emit("%s = %s;"%(va.code,r)); return va
    def last_index(self,code):
        if not code.endswith("]"): return None
        d=0
        for i in range(len(code)-1,-1,-1):
            if code[i]=="]": d+=1
            elif code[i]=="[":
                d-=1
                if d==0: return (code[:i],code[i+1:-1])
        return None
    def x_ConditionalOperator(self,n):
        c,a,b=n["c"]
        y=b
        while y.get("k") in("ImplicitCastExpr","ParenExpr","CStyleCastExpr") and y.get("c"): y=y["c"][0]
        if y.get("k")=="CallExpr" and y.get("f",{}).get("name")=="__assert_fail":
            vc=self.ev(c); self.emit("cpp_assert(%s);"%vc.code); return V("()","void")
        vc=self.ev(c)
        def side(x):
            m=len(self.lines); v=self.ev(x); 
            code=self.own(v,n["t"]) ; pre=self.lines[m:]; del self.lines[m:]
            return v,code,pre
        va,ca,pa=side(a); vb,cb,pb=side(b)
        if va.kind=="place" and vb.kind=="place" and not self.T.is_copy(va.ty if va.ty is not None else n["t"]):
            # an lvalue: c ? X[i] : X[j] is X[c ? i : j]; any other choice between places would have to be a copy
            ix=[self.last_index(v.code) for v in (va,vb)]
            if not pa and not pb and ix[0] and ix[1] and ix[0][0]==ix[1][0]:
                return V("%s[if %s { %s } else { %s }]"%(ix[0][0],vc.code,ix[0][1],ix[1][1]),"place",va.ty)
            if not n.get("rv"): raise Unsupported("choice between two lvalues")
        if not pa and not pb:
            if va.kind=="iter": return V("(if %s { %s } else { %s })"%(vc.code,ca,cb),"iter",n["t"],cont=va.cont or vb.cont)
            return V("(if %s { %s } else { %s })"%(vc.code,ca,cb),ty=n["t"])
        t=self.fresh("c")
        self.emit("let %s; if %s {"%(t,vc.code)); self.lines+=pa; self.emit("%s = %s; } else {"%(t,ca)); self.lines+=pb; self.emit("%s = %s; }"%(t,cb))
        return V(t,"iter" if va.kind=="iter" else "val",n["t"],cont=va.cont,stable=True)
    # ---------- construction
    def x_CXXConstructExpr(self,n):
        t=self.T.strip(n["t"]); args=n.get("c",[])
        r=self.T.rec(t)
        if n["copy"] or n["move"]:
            v=self.ev(args[0])
            if v.kind in("place",) and not self.T.is_copy(t):
                return V("cpp_copy(%s)"%self.refto(v),ty=t)
            return v
        if self.T.is_iter(t):
            # iterator -> const_iterator conversion
            if len(args)==1: return self.ev(args[0])
            self.bad(n,"iterator construction")
        if self.T.is_field(t) and not self.W.T.c.get("field_impl"):
            if not args: return V("F::zero()",ty=t,stable=True)
            if len(args)==1 and isinstance(self.T.strip(args[0]["t"]),str):
                v=self.ev(args[0])
                m=re.match(r"^\(?(-?\d+)(i32|i64)\)?$",v.code)
                if m and m.group(1)=="0": return V("F::zero()",ty=t,stable=True)
                if m and m.group(1)=="1": return V("F::one()",ty=t,stable=True)
                return V("F::of_int(%s)"%v.code,ty=t,stable=v.stable)
            self.bad(n,"field construction")
        h=self.W.ctor_table.get(r)
        if h:
            v=h(self,n,t,args)
            if v is not None: return v
        # in-scope constructor
        f=self.W.by_id.get(n["ctor"]["fk"])
        if f is not None: return self.call_fn(f,None,args,n)
        if n["default"] and n["implicit"]:
            return V(self.default_value(t),ty=t)
        self.bad(n,"constructor of %s"%r)
    x_CXXTemporaryObjectExpr=x_CXXConstructExpr
    def x_CXXScalarValueInitExpr(self,n):
        return V(self.default_value(n["t"]),ty=n["t"])
    def x_ImplicitValueInitExpr(self,n): return V(self.default_value(n["t"]),ty=n["t"])
    def x_InitListExpr(self,n):
        t=self.T.strip(n["t"]); r=self.T.rec(t)
        args=n.get("c",[])
        if r=="std::vector" and False: pass
        rec=self.W.record_of(t)
        if rec is not None:
            fs=rec["fields"]; vals=[self.owned(a) for a in args]
            return V("%s { %s }"%(self.T.rust(t).replace("<","::<",1),", ".join("%s: %s"%(self.W.fieldname(f["name"]),v) for f,v in zip(fs,vals))),ty=t)
        if isinstance(t,str) and len(args)==1: return self.ev(args[0])
        if isinstance(t,str) and not args: return V(self.default_value(t),ty=t)
        if isinstance(t,dict) and "arr" in t:
            return V("vec_lit",kind="initlist",ty=t,extra=args)
        self.bad(n,"init list")
    def default_value(self,t):
        t=self.T.strip(t)
        if isinstance(t,str):
            r=self.T.rust(t); return "false" if r=="bool" else "0"+r
        if self.T.is_field(t): return "F::zero()"
        r=self.T.rec(t)
        if r=="std::vector": return "Vec::new()"
        if r=="std::pair": return "(%s, %s)"%(self.default_value(t["a"][0]),self.default_value(t["a"][1]))
        if r in("std::map","std::unordered_map"): return "CppMap::new()"
        if r in("std::set","std::unordered_set"): return "CppSet::new()"
        # default constructor of in-scope record
        f=self.W.default_ctor(t)
        if f is not None: return self.call_fn(f,None,[],{"k":"CXXConstructExpr","t":t}).code
        rec=self.W.record_of(t)
        if rec is not None:
            return "%s { %s }"%(self.T.rust(t).replace("<","::<",1),", ".join("%s: %s"%(self.W.fieldname(f["name"]),self.default_value(f["t"])) for f in rec["fields"]))
        raise Unsupported("default value of %s"%json.dumps(t))
    # ---------- calls
    def x_CallExpr(self,n): return self.call(n)
    def x_CXXMemberCallExpr(self,n): return self.call(n)
    def x_CXXOperatorCallExpr(self,n): return self.call(n)
    def call(self,n):
        if "f" not in n: 
            cal=n.get("callee")
            self.bad(n,"indirect call")
        fd=n["f"]; q=strip_targs(fd["q"]); args=n.get("c",[]) or []
        # receiver
        obj=n.get("obj")
        rt=n.get("rt")
        # receiver for operator member calls is args[0]
        if n.get("op") and n.get("method"):
            obj=args[0]; args=args[1:]
            if n.get("rec") and isinstance(n["rec"],dict) and n["rec"].get("lambda"):
                return self.call_lambda(obj,args,n)
        recn=self.T.rec(n.get("rec")) if n.get("rec") else None
        # iterators
        tys=[x.get("t") for x in ([obj] if obj is not None else [])+args]
        if n.get("op") and tys and any(self.T.is_iter(t) for t in tys[:2]):
            return self.iter_call(n,obj,args)
        # field ops
        if (n.get("op") and recn in self.T.c["field"] or recn in self.T.c["field"]) and not self.W.T.c.get("field_impl"):
            return self.field_call(n,obj,args,fd["name"])
        if n.get("defop") and n.get("op")=="=":
            # implicit copy/move assignment
            if self.T.is_iter(obj["t"]):
                vb=self.ev(args[0]); va=self.ev(obj); return self.iter_assign(va,vb,obj)
            vb=self.owned(args[0]); va=self.ev(obj)
            self.emit("%s = %s;"%(va.code,vb)); return va
        h=self.W.std_table.get(q)
        if h: 
            v=h(self,n,obj,args)
            if v is not None: return v
        f=self.W.by_id.get(fd["fk"])
        if f is not None: return self.call_fn(f,obj,args,n)
        self.bad(n,"call to %s not supported"%q)
    def field_call(self,n,obj,args,name):
        op=n.get("op")
        if op in("+","-","*","/") and len(args)==1:
            a,b=self.evlist([obj,args[0]])
            return V("F::%s(%s, %s)"%({"+":"add","-":"sub","*":"mul","/":"div"}[op],a.code,b.code),ty=n["t"],stable=a.stable and b.stable)
        if op=="-" and not args:
            a=self.ev(obj); return V("F::neg(%s)"%a.code,ty=n["t"],stable=a.stable)
        if op in("==","!="):
            a,b=self.evlist([obj,args[0]])
            e="F::eq" 
            if isinstance(self.T.strip(args[0]["t"]),str):
                m=re.match(r"^\(?(-?\d+)i32\)?$",b.code)
                bb="F::zero()" if m and m.group(1)=="0" else "F::one()" if m and m.group(1)=="1" else "F::of_int(%s)"%b.code
            else: bb=b.code
            return V("%sF::eq(%s, %s)"%("!" if op=="!=" else "",a.code,bb),ty=n["t"],stable=a.stable and b.stable)
        if op=="<":
            a,b=self.evlist([obj,args[0]]); return V("F::lt(%s, %s)"%(a.code,b.code),ty=n["t"],stable=a.stable and b.stable)
        if op in("+=","-=","*=","/="):
            b=self.ev(args[0]); a=self.ev(obj)
            self.emit("%s = F::%s(%s, %s);"%(a.code,{"+":"add","-":"sub","*":"mul","/":"div"}[op[0]],a.code,b.code)); return a
        if op=="=":
            b=self.ev(args[0]); a=self.ev(obj)
            self.emit("%s = %s;"%(a.code,b.code)); return a
        if name=="inv":
            a=self.ev(obj); return V("F::inv(%s)"%a.code,ty=n["t"],stable=a.stable)
        if name=="iszero":
            a=self.ev(obj); return V("F::eq(%s, F::zero())"%a.code,ty=n["t"],stable=a.stable)
        self.bad(n,"field operation %s %s"%(op,name))
    def iter_call(self,n,obj,args):
        op=n["op"]
        if op in("++","--"):
            v=self.ev(obj if obj is not None else args[0])
            postfix = len(args)>=1 if obj is not None else len(args)>=2
            if v.kind!="iter": self.bad(n,"++ on non-variable iterator")
            if not re.match(r"^[A-Za-z_]\w*$",v.code):
                # --(x.end()) : rvalue increment
                if not postfix: return V("(%s %s 1)"%(v.code,"+" if op=="++" else "-"),"iter",n["t"],cont=v.cont)
                self.bad(n,"post-increment of rvalue iterator")
            return self.incdec(v,op,postfix,"unsigned long")
        if op in("*","->") and not (obj is not None and args) and len(args)<=1 :
            v=self.ev(obj if obj is not None else args[0])
            return self.deref_iter(v, n["t"]) if op=="*" else V(v.code,"iter",v.ty,cont=v.cont)
        if op=="=" :
            vb=self.ev(args[0]); va=self.ev(obj); return self.iter_assign(va,vb,obj)
        if op in("+=","-="):
            vb=self.ev(args[0]); va=self.ev(obj)
            self.emit("%s = %s;"%(va.code,self.iter_op(op[0],va,vb,None).code)); return va
        if op=="[]":
            va,vb=self.evlist([obj,args[0]])
            return V("%s[%s + %s]"%(va.cont.code if va.cont.isref is None else va.cont.code[2:-1],va.code,self.iter_off(vb)),"place",n["t"])
        xs=([obj] if obj is not None else [])+args
        va,vb=self.evlist(xs)
        return self.iter_op(op,va,vb,n["t"])
    def arg_for(self,p_t,node,v=None):
        """rust argument for parameter type p_t"""
        if v is None: v=self.ev(node)
        if isinstance(p_t,dict) and "ref" in p_t:
            if p_t.get("rv"): return self.own(v,p_t["ref"])
            if p_t["const"] or self.T.is_iter(p_t) and v.kind=="iter":
                if self.T.is_copy(p_t): return v.code
                if v.kind=="place": return self.refto(v)
                return "&"+v.code
            if v.kind=="iter": return "&mut "+v.code
            if v.kind!="place": raise Unsupported("non-place bound to non-const reference: %s"%v.code)
            return self.refto(v,True)
        if isinstance(p_t,dict) and "ptr" in p_t: raise Unsupported("pointer argument")
        return self.own(v,p_t)
    def call_fn(self,f,obj,args,n):
        key=fnkey(self.T,f); c=self.W.contracts.get(key)
        params=f["params"]
        if len(args)<len(params): raise Unsupported("missing args for %s"%key)
        if c is not None and not (self.inl and False):
            self.callees.add(key)
            rt=f["rt"]
            k=self.ncall.get(c.rust,0); self.ncall[c.rust]=k+1
            nodes=[]; 
            vs=self.evlist(([obj] if obj is not None else [])+args)
            out=[]
            i=0; mutarg=False; objv=None
            if obj is not None:
                v=vs[0]; i=1
                if f.get("static"): pass
                elif f.get("const"):
                    out.append(self.refto(v) if v.kind=="place" else "&"+v.code)
                else:
                    mutarg=True
                    if v.kind!="place":
                        t=self.fresh(); self.emit("let mut %s = %s;"%(t,v.code)); v=V(t,"place",v.ty)
                    out.append(self.refto(v,True))
                objv=v
            conts=set()
            for p,v in zip(params,vs[i:]):
                o=c.opts.get("iter_"+p["name"]) if self.T.is_iter(p["t"]) else None
                if o and ":" in o and o.split(":")[0] not in conts:
                    conts.add(o.split(":")[0])
                    if v.kind!="iter" or v.cont is None: raise Unsupported("iterator argument without container")
                    mu=o.split(":",1)[1].startswith("mut~"); out.append(self.refto(v.cont,mu)); mutarg=mutarg or mu
                a=self.arg_for(p["t"],None,v)
                if a.startswith("&mut "): mutarg=True
                if isinstance(p["t"],dict) and "ref" in p["t"] and not p["t"]["const"] and not self.T.is_iter(p["t"]): mutarg=True
                out.append(a)
            if mutarg:
                self.split_alias(out)
                # f(&mut X, g(&X)): the by-value argument is evaluated before X is borrowed
                roots={re.match(r"&mut \(?\*?(\w+)",o).group(1) for o in out if re.match(r"&mut \(?\*?(\w+)",o)}
                for q,o in enumerate(out):
                    if not o.startswith("&") and "(" in o and any(re.search(r"&%s\b"%r,o) for r in roots):
                        t=self.fresh(); self.emit("let %s = %s;"%(t,o)); out[q]=t
            g=c.opts.get("generics",""); tf="::<%s>"%",".join(re.findall(r"const~(\w+):",g)) if g.startswith("const") else ""
            code="%s%s(%s)"%(c.rust,tf,", ".join(out))
            if c.opts.get("retthis"):
                self.at("before %s %d"%(c.rust,k)); self.emit(code+";"); self.at("after %s %d"%(c.rust,k)); return V(objv.code,"place",f["rec"],isref=vs[0].isref)
            isvoid = rt=="void" and not f.get("ctor")
            if f.get("ctor"): rt=self.T.strip(f["rec"])
            self.at("before %s %d"%(c.rust,k))
            if isvoid or self.c.at.get("after %s %d"%(c.rust,k)) is not None and not isvoid or mutarg:
                if isvoid:
                    self.emit(code+";"); self.at("after %s %d"%(c.rust,k)); return V("()","void")
                t="r_%s_%d"%(c.rust,k); self.emit("let mut %s = %s;"%(t,code)); self.at("after %s %d"%(c.rust,k))
                code=t; stable=True
            else: stable=False
            if self.T.is_iter(rt):
                cont=self.iter_prov(c,obj,args,vs)
                return V(code,"iter",rt,cont=cont,stable=stable)
            if isinstance(rt,dict) and "ref" in rt and not self.T.is_copy(rt):
                raise Unsupported("contracted function returning reference: %s"%key)
            return V(code,"val",rt,stable=stable)
        return self.inline(f,obj,args,n)
    def split_alias(self,out):
        """f(&mut X[i], ..., &X[j], ...): two elements of one container.  Rust cannot borrow both, so the const one is copied first; that the elements differ (otherwise the copy would not be the code) is an obligation"""
        def parse(o,pre):
            if not o.startswith(pre) or not o.endswith("]"): return None
            m=re.match(r"^([\w.]+)\[(.*)\]$",o[len(pre):])
            if not m: return None
            d=0
            for ch in m.group(2):                   # the brackets must be one pair
                d+=(ch=="[")-(ch=="]")
                if d<0: return None
            return m
        if any(o.startswith("&mut ") for o in out):
            for i in range(len(out)):               # a by-value argument read through a map reference: read it first
                if not out[i].startswith("&") and "cpp_map_at_vec(" in out[i]:
                    t=self.fresh("mv"); self.emit("let %s = %s;"%(t,out[i])); out[i]=t
        for i in range(len(out)):
            m=parse(out[i],"&mut ")
            if not m: continue
            for k in range(len(out)):
                r=parse(out[k],"&") if k!=i and not out[k].startswith("&mut ") else None
                if r and r.group(1)==m.group(1):
                    ix=[]
                    for g in (m.group(2),r.group(2)):
                        if re.match(r"^\w+$",g): ix.append(g)
                        else: v=self.fresh("ali"); self.emit("let %s = %s;"%(v,g)); ix.append(v)
                    t=self.fresh("al"); self.emit("proof { assert((%s) as int != (%s) as int); } // distinct elements"%tuple(ix))
                    self.emit("let %s = cpp_copy(&%s[%s]);"%(t,r.group(1),ix[1])); out[k]="&"+t; out[i]="&mut %s[%s]"%(m.group(1),ix[0])
    def iter_prov(self,c,obj,args,vs):
        p=c.opts.get("iter")
        if not p: raise Unsupported("no iterator provenance for %s"%c.key)
        # e.g. this.indval
        base,_,rest=p.partition(".")
        v=vs[0]
        code=v.code[2:-1] if v.isref else v.code
        return V(code+"."+rest,"place",None)
    def inline(self,f,obj,args,n):
        key=fnkey(self.T,f)
        if f["id"] in self.inl: raise Unsupported("recursive inline of %s"%key)
        if len(self.inl)>12: raise Unsupported("inline depth")
        if f["q"] in self.W.noinline: raise Unsupported("no contract for %s"%key)
        self.note("inlined "+key)
        self.inl.append(f["id"])
        saved=self.env
        try:
            vs=self.evlist(([obj] if obj is not None else [])+args)
            env=dict(saved)
            i=0
            if obj is not None:
                i=1; v=vs[0]
                if v.kind=="iter": v=self.deref_iter(v)   # it->method()
                if v.kind!="place":
                    t=self.fresh(); self.emit("let mut %s = %s;"%(t,v.code)); v=V(t,"place",v.ty)
                env["this"]=self.freeze(v)
            for p,v in zip(f["params"],vs[i:]):
                env[p["id"]]=self.bind_param(p,v)
            if f.get("ctor"):
                return self.inline_ctor(f,env)
            self.env=env
            body=f["body"].get("c",[])
            if len(body)==1 and body[0]["k"]=="ReturnStmt":
                e=body[0].get("c",[None])[0]
                v=self.ev(e)
                rt=f["rt"]
                if not (isinstance(rt,dict) and "ref" in rt) and v.kind=="place" and not self.T.is_copy(rt):
                    return V("cpp_copy(%s)"%self.refto(v),ty=rt)
                return v
            # multi-statement
            rt=f["rt"]; ret=None
            if rt!="void":
                if isinstance(rt,dict) and "ref" in rt and not self.T.is_copy(rt):
                    raise Unsupported("inlining %s: returns reference"%key)
                ret=self.fresh("ret")
                if self.T.is_iter(rt): self.emit("let mut %s: usize;"%ret)
                else: self.emit("let mut %s: %s;"%(ret,self.T.rust(rt)))
            self.openb()
            self.retstack.append(("inline",ret,rt))
            self.inline_cont=None
            self.tail_stmts(body)
            self.retstack.pop()
            self.ind-=1; self.emit("}")
            if ret is None: return V("()","void")
            if self.T.is_iter(rt):
                return V(ret,"iter",rt,cont=self.inline_cont,stable=True)
            return V(ret,"val",rt,stable=True)
        finally:
            self.env=saved; self.inl.pop()
    def tail_stmts(self,body):
        """statements in tail position of an inlined function"""
        for i,s in enumerate(body):
            if s is None: continue
            if s["k"]=="IfStmt" and self.has_return(s):
                rest=body[i+1:]
                if s.get("init") or s.get("cvar"): self.bad(s,"if-init")
                v=self.ev(s["cond"]); k=self.nif; self.nif+=1
                self.emit("if %s {"%v.code); self.ind+=1
                tl=self.stmts_of(s["then"])
                self.tail_stmts(tl if self.ends_return(s["then"]) else tl+rest); self.ind-=1
                self.emit("} else {"); self.ind+=1
                el=self.stmts_of(s["else"]) if s.get("else") else []
                self.tail_stmts(el if s.get("else") and self.ends_return(s["else"]) else el+rest); self.ind-=1
                self.emit("}")
                return
            if s["k"]=="ReturnStmt":
                _,ret,rt=self.retstack[-1]
                c=s.get("c",[None])[0]
                if c is not None and ret is not None:
                    v=self.ev(c)
                    if self.T.is_iter(rt): self.inline_cont=v.cont
                    self.emit("%s = %s;"%(ret,self.own(v,rt)))
                elif c is not None: self.stmt_expr(c)
                return
            if s["k"]=="CompoundStmt" and self.has_return(s):
                self.openb(); self.tail_stmts((s.get("c") or [])+body[i+1:]); self.ind-=1; self.emit("}"); return
            if self.has_return(s): self.bad(s,"return inside loop of inlined function")
            self.stmt(s)
    def stmts_of(self,s):
        if s is None: return []
        return s.get("c") or [] if s["k"]=="CompoundStmt" else [s]
    def has_return(self,s):
        if isinstance(s,list): return any(self.has_return(x) for x in s)
        if not isinstance(s,dict): return False
        if s.get("k")=="ReturnStmt": return True
        if s.get("k")=="LambdaExpr": return False
        return any(self.has_return(v) for k,v in s.items() if k in("c","then","else","body"))
    def ends_return(self,s):
        l=self.stmts_of(s)
        if not l: return False
        x=l[-1]
        if x["k"] in("ReturnStmt","CXXThrowExpr"): return True
        if x["k"]=="IfStmt": return bool(x.get("else")) and self.ends_return(x["then"]) and self.ends_return(x["else"])
        if x["k"]=="CompoundStmt": return self.ends_return(x)
        return False
    def inline_ctor(self,f,env):
        t=self.T.strip(f["rec"]); rec=self.W.record_of(t)
        if rec is None: raise Unsupported("record %s"%json.dumps(t))
        body=f["body"].get("c",[])
        self.env=env
        inits={}
        for i in f.get("inits",[]):
            if i.get("deleg"):
                if body: raise Unsupported("delegating ctor with body")
                return self.ev(i["e"])
            if i.get("base"): continue
            inits[i["m"]]=i["e"]
        vals=[]
        vn=[fl for fl in rec["fields"]]
        codes={}
        for fl in vn:
            if fl["name"] in inits: codes[fl["name"]]=self.owned(inits[fl["name"]])
            else:
                codes[fl["name"]]=self.default_value(fl["t"])
        lit="%s { %s }"%(self.T.rust(t).replace("<","::<",1),", ".join("%s: %s"%(self.W.fieldname(k["name"]),codes[k["name"]]) for k in vn))
        if not body: return V(lit,ty=t)
        nm=self.fresh("obj"); self.emit("let mut %s: %s = %s;"%(nm,self.T.rust(t),lit))
        self.env=dict(env); self.env["this"]=V(nm,"place",t)
        self.openb()
        self.retstack.append(("inline",None,"void"))
        self.tail_stmts(body); self.retstack.pop(); self.ind-=1; self.emit("}")
        return V(nm,"val",ty=t,stable=True)
    def bind_param(self,p,v):
        t=p["t"]
        nm=self.name(p["name"],p["id"])
        if v.kind=="lambda": return v
        if isinstance(t,dict) and "ref" in t:
            if v.kind=="iter":
                if re.match(r"^\w+$",v.code): return V(v.code,"iter",t,cont=v.cont)
                x=self.fresh(nm); self.emit("let mut %s = %s;"%(x,v.code)); return V(x,"iter",t,cont=v.cont)
            if v.kind=="place": 
                if t["const"] and self.T.is_copy(t) and not re.match(r"^[\w.]+$", v.code):
                    x=self.fresh(nm); self.emit("let %s = %s;"%(x,v.code)); return V(x,"place",t)
                return self.freeze(v,t)
            x=self.fresh(nm); self.emit("let mut %s = %s;"%(x,v.code)); return V(x,"place",t)
        if v.kind=="iter":
            x=self.fresh(nm); self.emit("let mut %s = %s;"%(x,v.code)); return V(x,"iter",t,cont=v.cont)
        x=self.fresh(nm); self.emit("let mut %s: %s = %s;"%(x,self.T.rust(t),self.own(v,t))); return V(x,"place",t)
    def freeze(self,v,t=None):
        """make a place usable as alias: snapshot non-constant index expressions"""
        code=v.code
        def stable_ix(ix): return re.match(r"^[\d]+\w*$",ix) or (re.match(r"^\w+$",ix) and ix not in self.mutated_names)
        # find bracketed indices (innermost simple ones)
        out="";i=0
        while i<len(code):
            if code[i]=="[":
                d=1;j=i+1
                while d: d+= code[j]=="["; d-= code[j]=="]"; j+=1
                ix=code[i+1:j-1]
                if not stable_ix(ix):
                    x=self.fresh("ix"); self.emit("let %s = %s;"%(x,ix)); ix=x
                out+="["+ix+"]"; i=j
            else: out+=code[i]; i+=1
        return V(out,v.kind,t if t is not None else v.ty,cont=v.cont,isref=v.isref)
    def call_lambda(self,obj,args,n):
        v=self.ev(obj)
        if v.kind!="lambda": self.bad(n,"lambda call")
        lam,env0=v.extra
        vs=self.evlist(args)
        saved=self.env
        env=dict(env0)
        for p,a in zip(lam["params"],vs): env[p["id"]]=self.bind_param(p,a)
        self.env=env
        try:
            body=lam["body"].get("c",[])
            if len(body)==1 and body[0]["k"]=="ReturnStmt":
                return self.ev(body[0]["c"][0])
            raise Unsupported("multi-statement lambda")
        finally: self.env=saved
    def x_LambdaExpr(self,n): return V("lambda","lambda",n["t"],extra=(n,dict(self.env)))
    def x_CXXThrowExpr(self,n):
        if self.c.throws:
            self.emit("assert(%s);"%self.c.throws); self.emit("cpp_throw_ok();"); return V("()","void")
        self.emit("cpp_throw();" if not self.c.opts.get("throws") else "cpp_throw_ok();"); return V("()","void")
    # ---------- statements
    def stmt_expr(self,n):
        # evaluation for side effects only
        x=n
        if self.diagnostic(n): return
        while x["k"] in("ImplicitCastExpr","CXXFunctionalCastExpr","CStyleCastExpr") and x.get("ck") in("ToVoid","NoOp","LValueToRValue"): x=x["c"][0]
        self.discard = x["k"]=="UnaryOperator" or x["k"]=="CXXOperatorCallExpr" and x.get("op") in("++","--")
        if x["k"]=="UnaryOperator" and x["op"] in("++","--"):
            v=self.ev(x["c"][0]); self.discard=True; self.incdec(v,x["op"],x["postfix"],x["t"]); self.discard=False; return
        v=self.ev(n); self.discard=False
        if v.kind=="val" and "(" in v.code and not v.stable and not re.match(r"^[\w:.]+$",v.code):
            self.emit("let _ = %s;"%v.code)
    def diagnostic(self,n):
        """timing and stream output with no effect on program state: dropped (recorded in the notes)"""
        x=n
        while x["k"] in("ImplicitCastExpr","ExprWithCleanups") and x.get("c"): x=x["c"][0]
        if x["k"]!="CXXOperatorCallExpr": return False
        args=x.get("c") or []
        r=self.T.rec(self.T.strip(x["t"])) or ""
        t0=self.T.rec(self.T.strip(args[0]["t"])) if args else ""
        if x.get("op")=="<<" and r=="std::basic_ostream":
            if self.assigned_names(x)-set(("cout","cerr")): self.bad(x,"stream output with side effects")
            self.note("stream output dropped"); return True
        if x.get("op")=="=" and (t0 or "").startswith("std::chrono::"):
            self.note("timing dropped"); return True
        return False
    discard=False
    def stmt(self,s):
        if s is None: return
        m=getattr(self,"s_"+s["k"],None)
        if m: return m(s)
        if hasattr(self,"x_"+s["k"]): return self.stmt_expr(s)
        self.bad(s,"statement kind not supported")
    def openb(self):
        # a block right after a loop body would be read as a second loop body
        if self.lines and self.lines[-1].strip()=="}": self.lines[-1]+=";"
        self.emit("{"); self.ind+=1
    def s_NullStmt(self,s): pass
    def is_empty(self,s):
        if s is None or s["k"]=="NullStmt": return True
        return s["k"]=="CompoundStmt" and all(self.is_empty(c) for c in s.get("c",[]) or [])
    def const_false(self,x):
        while x and x["k"] in("ImplicitCastExpr","ParenExpr"): x=x["c"][0]
        return bool(x) and (x["k"]=="CXXBoolLiteralExpr" and not x["v"] or x["k"]=="IntegerLiteral" and x["v"]=="0")
    def s_CompoundStmt(self,s):
        self.openb()
        for c in s.get("c",[]) or []: self.stmt(c)
        self.ind-=1; self.emit("}")
    def block(self,s):
        for c in self.stmts_of(s): self.stmt(c)
    def s_DeclStmt(self,s):
        for v in s["c"]:
            if v["k"]!="VarDecl":
                if v["k"] in("Decl_TypeAlias","Decl_Typedef","Decl_StaticAssert","Decl_Using"): continue
                self.bad(s,"declaration %s"%v["k"])
            self.vardecl(v)
    def vardecl(self,v):
        t=v["t"]; nm=self.name(v["name"],v["id"])
        self.locals.append(nm)
        if v.get("static") or v.get("tls"): self.bad(v,"static local")
        if (self.T.rec(self.T.strip(t)) or "").startswith("std::chrono::"):
            self.locals.pop(); self.note("timing dropped"); return
        if isinstance(t,dict) and "ref" in t:
            x=self.ev(v["init"])
            if x.kind in("place",) : self.env[v["id"]]=self.freeze(x,t); 
            elif x.kind=="iter":
                self.emit("let mut %s = %s;"%(nm,x.code)); self.env[v["id"]]=V(nm,"iter",t,cont=x.cont)
            else:
                self.emit("let mut %s = %s;"%(nm,x.code)); self.env[v["id"]]=V(nm,"place",t)
            return
        if self.T.is_iter(t):
            x=self.ev(v["init"])
            if x.kind!="iter": self.bad(v["init"],"iterator initialiser")
            self.emit("let mut %s: usize = %s;"%(nm,x.code))
            self.env[v["id"]]=V(nm,"iter",t,cont=self.freeze(x.cont) if x.cont else None); return
        if isinstance(t,dict) and t.get("lambda"):
            x=self.ev(v["init"]); self.env[v["id"]]=x; return
        rt=self.T.rust(t)
        if "init" in v and v["init"] is not None:
            code=self.owned(v["init"])
            self.emit("let mut %s: %s = %s;"%(nm,rt,code))
        else:
            if isinstance(t,str): 
                self.emit("let mut %s: %s = cpp_uninit_%s();"%(nm,rt,rt))
            else: self.emit("let mut %s: %s = %s;"%(nm,rt,self.default_value(t)))
        self.env[v["id"]]=V(nm,"place",t)
    def s_IfStmt(self,s):
        if s.get("init"): 
            self.openb(); self.stmt(s["init"])
        if s.get("cvar"): self.bad(s,"condition variable")
        if self.is_empty(s["then"]) and self.is_empty(s.get("else")):   # does nothing: not numbered
            v=self.ev(s["cond"]); self.emit("let _ = %s;"%v.code)
            if s.get("init"): self.ind-=1; self.emit("}")
            return
        k=self.nif; self.nif+=1
        v=self.ev(s["cond"])
        if v.code=="false" and not s.get("else"): return
        self.at("before if %d"%k)
        self.emit("if %s {"%v.code); self.ind+=1
        self.at("if %d then begin"%k); self.block(s["then"]); 
        if not self.ends_jump(s["then"]): self.at("if %d then end"%k)
        self.ind-=1
        if s.get("else") or ("if %d else begin"%k) in self.c.at or ("if %d else end"%k) in self.c.at:
            self.emit("} else {"); self.ind+=1
            self.at("if %d else begin"%k); self.block(s.get("else")); 
            if not self.ends_jump(s.get("else")): self.at("if %d else end"%k)
            self.ind-=1
        self.emit("}")
        self.at("after if %d"%k)
        if s.get("init"): self.ind-=1; self.emit("}")
    def ends_jump(self,s):
        l=self.stmts_of(s)
        return bool(l) and l[-1]["k"] in("ReturnStmt","BreakStmt","ContinueStmt","CXXThrowExpr")
    def loop_spec(self,k):
        sp=self.c.loops.get(k)
        if sp is None:
            self.note("loop %d has no invariant"%k); return []
        self.used_loops.add(k)
        return [l for l in self.subst(sp.rstrip("\n").split("\n"))]
    def has_jump(self,s,kind,depth=0):
        """continue/break belonging to this loop level"""
        if isinstance(s,list): return any(self.has_jump(x,kind) for x in s)
        if not isinstance(s,dict): return False
        if s.get("k")==kind: return True
        if s.get("k") in("ForStmt","WhileStmt","DoStmt","CXXForRangeStmt","LambdaExpr"): return False
        return any(self.has_jump(v,kind) for kk,v in s.items() if kk in("c","then","else","body"))
    def do_loop(self,condf,body,stepf,k,pre=None):
        """emit a while loop"""
        mark=len(self.lines)
        save=(self.tmp,)
        code=condf() if condf else "true"
        prelines=self.lines[mark:]; del self.lines[mark:]
        self.at("loop %d before"%k)
        sp=self.loop_spec(k)
        brk=self.has_jump(body,"BreakStmt")
        if prelines or condf is None or (brk and self.c.opts.get("loopform")):
            self.emit("loop"); self.ind+=1; self.raw(sp); self.ind-=1; self.emit("{"); self.ind+=1
            self.lines+=["    "+l for l in prelines]
            if condf is not None: self.emit("if !(%s) { break; }"%code)
        else:
            self.emit("while %s"%code); self.ind+=1; self.raw(sp); self.ind-=1; self.emit("{"); self.ind+=1
        self.at("loop %d begin"%k)
        self.loopstack.append((stepf,k))
        if pre: pre()
        self.block(body)
        self.loopstack.pop()
        if not self.ends_jump(body):
            self.at("loop %d end"%k)
            if stepf: stepf()
            self.at("loop %d step"%k)
        self.ind-=1; self.emit("}")
        self.at("loop %d after"%k)
    def s_WhileStmt(self,s):
        if s.get("cvar"): self.bad(s,"condition variable")
        if self.const_false(s["cond"]): return
        k=self.nloop; self.nloop+=1
        self.do_loop(lambda:self.ev(s["cond"]).code,s["body"],None,k)
    def s_DoStmt(self,s):
        x=s["cond"]
        while x["k"]=="ImplicitCastExpr": x=x["c"][0]
        if x["k"]=="CXXBoolLiteralExpr" and not x["v"] or x["k"]=="IntegerLiteral" and x["v"]=="0":
            if not self.has_jump(s["body"],"BreakStmt") and not self.has_jump(s["body"],"ContinueStmt"):
                self.stmt(s["body"]); return
        k=self.nloop; self.nloop+=1
        if self.has_jump(s["body"],"ContinueStmt"): self.bad(s,"continue in do loop")
        self.at("loop %d before"%k); sp=self.loop_spec(k)
        self.emit("loop"); self.ind+=1; self.raw(sp); self.ind-=1; self.emit("{"); self.ind+=1
        self.at("loop %d begin"%k)
        self.loopstack.append((None,k)); self.block(s["body"]); self.loopstack.pop()
        v=self.ev(s["cond"]); self.at("loop %d end"%k); self.emit("if !(%s) { break; }"%v.code)
        self.ind-=1; self.emit("}"); self.at("loop %d after"%k)
    def s_ForStmt(self,s):
        if self.const_false(s.get("cond")):
            if s.get("init"): self.openb(); self.stmt(s["init"]); self.ind-=1; self.emit("}")
            return
        k=self.nloop; self.nloop+=1
        self.openb()
        if s.get("init"): self.stmt(s["init"])
        incvars=self.assigned_names(s.get("inc"))
        inner=self.assigned_names(s["body"])
        removed=(incvars-inner)&self.mutated_names
        # the induction variable is constant inside the body
        self.mutated_names-=removed
        self.do_loop((lambda:self.ev(s["cond"]).code) if s.get("cond") else None,s["body"],(lambda:self.stmt_expr(s["inc"])) if s.get("inc") else None,k)
        self.mutated_names|=removed
        self.ind-=1; self.emit("}")
    def s_CXXForRangeStmt(self,s):
        k=self.nloop; self.nloop+=1
        v=s["var"]; nm=self.name(v["name"],v["id"])
        rng=self.ev(s["range"])
        self.openb()
        if rng.kind=="initlist":
            self.bad(s,"range over init list")
        if rng.kind!="place":
            x=self.fresh("rng"); self.emit("let %s = %s;"%(x,rng.code)); rng=V(x,"place",rng.ty)
        rng=self.freeze(rng)
        r=self.T.rec(self.T.strip(rng.ty))
        if r!="std::vector": self.bad(s,"range-for over %s"%r)
        ix="ix%d"%k
        code=rng.code[2:-1] if rng.isref else rng.code
        self.emit("let mut %s: usize = 0;"%ix)
        t=v["t"]
        def pre():
            pl=V("%s[%s]"%(code,ix),"place",self.T.strip(t))
            if v.get("bindings"):
                for j,b in enumerate(v["bindings"]):
                    self.env[b["id"]]=V("%s[%s].%d"%(code,ix,j),"place",b["t"])
                return
            if isinstance(t,dict) and "ref" in t and not (t["const"] and self.T.is_copy(t)) : self.env[v["id"]]=pl
            else:
                self.locals.append(nm)
                self.emit("let mut %s = %s;"%(nm,self.own(pl,t))); self.env[v["id"]]=V(nm,"place",t)
        self.do_loop(lambda:"%s < %s.len()"%(ix,code),s["body"],lambda:self.emit("%s = %s + 1;"%(ix,ix)),k,pre)
        self.ind-=1; self.emit("}")
    def s_BreakStmt(self,s): 
        k=self.loopstack[-1][1]; self.at("loop %d break"%k); self.emit("break;")
    def s_ContinueStmt(self,s):
        st,k=self.loopstack[-1]
        self.at("loop %d continue"%k)
        if st: st()
        self.emit("continue;")
    def s_ReturnStmt(self,s):
        c=(s.get("c") or [None])[0]
        kind,ret,rt=self.retstack[-1]
        if kind!="fn": self.bad(s,"return in non-tail position of inlined function")
        if c is None or rt=="void" :
            if c is not None: self.stmt_expr(c)
            k=self.nret; self.nret+=1; self.at("before return %d"%k)
            self.emit("return%s;"%(" this" if self.f.get("ctor") else "")); return
        v=self.ev(c)
        if self.c.opts.get("retthis"):
            if v.code!="(*this)": self.bad(s,"reference return of something other than *this")
            k=self.nret; self.nret+=1; self.at("before return %d"%k); self.emit("return;"); return
        code=self.own(v,rt)
        k=self.nret; self.nret+=1
        if ("before return %d"%k) in self.c.at or "before return" in self.c.at:
            if not re.match(r"^\w+$",code):
                self.emit("let ret_v = %s;"%code); code="ret_v"
            self.at("before return %d"%k); self.at("before return")
        self.emit("return %s;"%code)
    # ---------- mutated names
    def assigned_names(self,n,acc=None):
        """names of local variables assigned anywhere in n (by ++,--,=,op=, or bound to non-const ref)"""
        acc=set() if acc is None else acc
        if isinstance(n,list):
            for x in n: self.assigned_names(x,acc)
            return acc
        if not isinstance(n,dict): return acc
        k=n.get("k")
        def lhs(x):
            while x["k"] in("ImplicitCastExpr","MemberExpr") and x.get("c"): x=x["c"][0]
            if x["k"]=="DeclRefExpr": acc.add(self.name(x["d"]["name"],0))
            elif x["k"]=="UnaryOperator" or x["k"]=="ConditionalOperator": 
                for y in x.get("c",[]): lhs(y)
        if k=="UnaryOperator" and n["op"] in("++","--","&"): lhs(n["c"][0])
        elif k=="BinaryOperator" and n["op"]=="=": lhs(n["c"][0])
        elif k=="CompoundAssignOperator": lhs(n["c"][0])
        elif k in("CallExpr","CXXMemberCallExpr","CXXOperatorCallExpr"):
            args=n.get("c",[]) or []; pt=n.get("pt",[])
            if n.get("op") and n.get("method"):
                if not n.get("mconst"): lhs(args[0])
                args=args[1:]
            elif n.get("obj") is not None and not n.get("mconst"): lhs(n["obj"])
            for p,a in zip(pt,args):
                if isinstance(p,dict) and "ref" in p and not p["const"] and a: lhs(a)
        elif k=="LambdaExpr": pass
        for kk,x in n.items():
            if kk in("c","init","cond","then","else","body","inc","range","var","obj","cvar","params"): self.assigned_names(x,acc)
        return acc
    # ---------- whole function
    def run(self):
        f=self.f; T=self.T; self.retstack=[]; self.loopstack=[]; self.nret=0
        self.mutated_names=self.assigned_names(f["body"])
        params=[]; selfty=None
        rename=[]
        gens=self.c.opts.get("generics") or T.c.get("generics") or ("F: Field" if re.search(r"\bF\b",self.c.key) else "none")
        gens=gens.replace("~"," ")
        if f.get("rec") and not f.get("static"):
            selfty=T.rust(f["rec"])
            if f.get("ctor"): self.env["this"]=V("this","place",f["rec"])
            else:
                mut=not f.get("const")
                params.append("this: %s%s"%("&mut " if mut else "&",selfty)); self.env["this"]=V("(*this)","place",f["rec"],isref="&mut" if mut else "&")
        for p in f["params"]:
            nm=self.name(p["name"],p["id"]); t=p["t"]
            if nm in self.locals: nm="%s_%d"%(nm,len(self.locals))   # expanded parameter pack
            self.locals.append(nm)
            if p["name"]==self.c.opts.get("aliasparam"):
                th=self.env["this"]; self.env[p["id"]]=V(th.code,"place",t,isref=th.isref); continue
            if T.is_iter(t):
                cont=self.c.opts.get("iter_"+p["name"])
                if cont and ":" in cont:
                    cn,ct=cont.split(":",1); mu=ct.startswith("mut~"); ct=ct[4:] if mu else ct
                    q="%s: &%s%s"%(cn,"mut " if mu else "",ct)
                    if q not in params: params.append(q)
                    cv=V("(*%s)"%cn,"place",None,isref="&mut" if mu else "&")
                else: cv=V(cont,"place",None) if cont else None
                params.append("%s: usize"%nm)
                self.env[p["id"]]=V(nm,"iter",t,cont=cv)
                if nm in self.mutated_names: rename.append(nm)
                continue
            rt=T.rust(t)
            if isinstance(t,dict) and "ref" in t and not t.get("rv"):
                if t["const"]:
                    if T.is_copy(t): params.append("%s: %s"%(nm,rt)); self.env[p["id"]]=V(nm,"place",t)
                    else: params.append("%s: &%s"%(nm,rt)); self.env[p["id"]]=V("(*%s)"%nm,"place",t,isref="&")
                else:
                    params.append("%s: &mut %s"%(nm,rt)); self.env[p["id"]]=V("(*%s)"%nm,"place",t,isref="&mut")
            else:
                params.append("%s: %s"%(nm,rt)); self.env[p["id"]]=V(nm,"place",t)
                if nm in self.mutated_names: rename.append(nm)
        rt=f["rt"]
        if f.get("ctor"): ret=" -> (ret: %s)"%selfty
        elif rt=="void" or self.c.opts.get("retthis"): ret=""
        else: ret=" -> (ret: %s)"%T.rust(rt)
        for nm in rename: self.emit("let mut %s = %s;"%(nm,nm))
        if f.get("ctor"):
            self.at("init")
            rec=self.W.record_of(T.strip(f["rec"])); inits={i["m"]:i["e"] for i in f.get("inits",[]) if "m" in i}
            deleg=[i for i in f.get("inits",[]) if i.get("deleg")]
            if getattr(self,"headonly",False): pass
            elif deleg: self.emit("let mut this = %s;"%self.owned(deleg[0]["e"]))
            else:
                codes=[]
                for fl in rec["fields"]:
                    if fl["name"] in inits: codes.append("%s: %s"%(self.W.fieldname(fl["name"]),self.owned(inits[fl["name"]])))
                    else: codes.append("%s: %s"%(self.W.fieldname(fl["name"]),"cpp_uninit_%s()"%T.rust(fl["t"]) if isinstance(fl["t"],str) else self.default_value(fl["t"])))
                self.emit("let mut this = %s { %s };"%(selfty.replace("<","::<",1),", ".join(codes)))
            self.retstack.append(("fn",None,"void"))
        else: self.retstack.append(("fn",None,rt))
        self.at("entry")
        body=f["body"].get("c",[]) or []
        for s in body: self.stmt(s)
        last=body[-1] if body else None
        if last is None or last["k"]!="ReturnStmt":
            self.at("exit")
            if f.get("ctor"): self.emit("this")
        # checks
        for a in self.c.at:
            if a not in self.used_at: self.note("anchor '%s' not found"%a); self.missing=True
        for k in self.c.loops:
            if k not in self.used_loops: self.note("loop %d not found"%k)
        sig="".join(a+"\n" for a in self.c.attrs)
        out=[sig+"#[verifier::loop_isolation(false)]"] if "isolate" not in self.c.opts else [sig.rstrip("\n")]
        if any("invariant_except_break" in x or "ensures" in x for x in self.c.loops.values()): out.append("#[verifier::allow_complex_invariants]")
        if self.c.opts.get("nodecr"): out.append("#[verifier::exec_allows_no_decreases_clause]")
        if self.c.opts.get("rlimit"): out.append("#[verifier::rlimit(%s)]"%self.c.opts["rlimit"])
        if self.c.opts.get("spinoff"): out.append("#[verifier::spinoff_prover]")
        out.append("pub fn %s%s(%s)%s"%(self.c.rust,"<%s>"%gens if gens!="none" else "",", ".join(params),ret))
        def clause(name,txt):
            if txt.strip(): out.append("    %s"%name); out.extend("        "+l.strip() for l in txt.rstrip().split("\n"))
        clause("requires",self.c.requires); clause("ensures",self.c.ensures); clause("decreases",self.c.decreases)
        out.append("{"); out+= self.lines; out.append("}")
        return "\n".join(out)

class World:
    def __init__(self, dump, config):
        self.T=Types(config); self.dump=dump; self.by_id={}; self.contracts={}; self.rename={}
        self.records=dump["records"]; self.noinline=set(config.get("noinline",()))
        self.globals_=dict(config.get("globals",{}))
        self.ctor_table={}; self.std_table={}
        self.by_key={}
        for f in dump["functions"]:
            self.by_id[f["id"]]=f
            try: k=fnkey(self.T,f)
            except Unsupported: continue
            if config.get("fn_filter") and not config["fn_filter"](f): continue
            self.by_key.setdefault(k,[]).append(f)
    def fieldname(self,n): return n+"_" if n in RUST_KW else n
    def record_of(self,t):
        t=self.T.strip(t)
        if not isinstance(t,dict): return None
        r=t.get("r"); best=None
        for x in self.records:
            if x["name"]==r:
                if x.get("a",None)==t.get("a",None): return x
                best=best or x
        return best
    def default_ctor(self,t):
        t=self.T.strip(t)
        for f in self.dump["functions"]:
            if f.get("ctor") and not f["params"] and self.T.strip(f["rec"])==t: return f
        return None
