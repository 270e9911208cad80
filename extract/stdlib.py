"""mapping of std:: calls to Verus calls (vstd specs or trusted wrappers in prelude.rs)"""
from cxx2verus import *

def cont(v): return v.code[2:-1] if v.isref else v.code
def install(W):
    T=W.T; S=W.std_table; C=W.ctor_table
    def vec_elem(t): return T.strip(t)["a"][0]
    def d(name):
        def w(fn):
            for n in name.split(): S[n]=fn
            return fn
        return w
    @d("std::vector::operator=")
    def _(s,n,obj,a):
        x=s.owned(a[0]); v=s.ev(obj); s.emit("%s = %s;"%(v.code,x)); return v
    @d("std::vector::size")
    def _(s,n,obj,a): v=s.ev(obj); return V("%s.len()"%cont(v),ty="unsigned long")
    @d("std::vector::empty")
    def _(s,n,obj,a): v=s.ev(obj); return V("(%s.len() == 0)"%cont(v),ty="bool")
    @d("std::vector::operator[] std::vector::at")
    def _(s,n,obj,a):
        v,i=s.evlist([obj,a[0]])
        th=s.env.get("this")
        if th is not None and th.isref!="&" and re.search(r"\w\((?:[^()]*,\s*)?(?:&|\*)?this\b\s*[,)]",i.code):   # the index calls a member of the object being written: evaluate it first
            t=s.fresh(); s.emit("let %s = %s;"%(t,i.code)); i.code=t
        return V("%s[%s]"%(cont(v),i.code),"place",vec_elem(v.ty) if v.ty is not None and T.rec(T.strip(v.ty))=="std::vector" else n["t"])
    @d("std::vector::back")
    def _(s,n,obj,a): v=s.ev(obj); return V("%s[%s.len() - 1]"%(cont(v),cont(v)),"place",n["t"])
    @d("std::vector::front")
    def _(s,n,obj,a): v=s.ev(obj); return V("%s[0]"%cont(v),"place",n["t"])
    @d("std::vector::begin std::vector::cbegin")
    def _(s,n,obj,a): v=s.ev(obj); return V("0","iter",n["t"],cont=v,stable=True)
    @d("std::vector::end std::vector::cend")
    def _(s,n,obj,a): v=s.ev(obj); return V("%s.len()"%cont(v),"iter",n["t"],cont=v)
    @d("std::vector::reserve")
    def _(s,n,obj,a): s.note("reserve dropped"); return V("()","void")
    @d("std::vector::clear")
    def _(s,n,obj,a): v=s.ev(obj); s.emit("%s.clear();"%cont(v)); return V("()","void")
    @d("std::vector::pop_back")
    def _(s,n,obj,a): v=s.ev(obj); s.emit("cpp_pop_back(%s);"%s.refto(v,True)); return V("()","void")
    def emit_push(s,v,x):
        k=s.npush=getattr(s,"npush",-1)+1
        s.at("before push %d"%k); s.emit("%s.push(%s);"%(cont(v),x)); s.at("after push %d"%k)
    @d("std::vector::push_back")
    def _(s,n,obj,a):
        x=s.owned(a[0]); v=s.ev(obj); emit_push(s,v,x); return V("()","void")
    @d("std::vector::emplace_back")
    def _(s,n,obj,a):
        et=T.strip(vec_elem(n["rec"]))
        if len(a)==1 and T.strip(a[0]["t"])==et: x=s.owned(a[0])
        elif isinstance(et,str) and len(a)==1: 
            v0=s.ev(a[0]); x=s.conv_int(v0,T.strip(a[0]["t"]),et,n).code
        else:
            x=construct(s,et,a,n)
        v=s.ev(obj); emit_push(s,v,x)
        return V("%s[%s.len() - 1]"%(cont(v),cont(v)),"place",et)
    def construct(s,et,a,n):
        r=T.rec(et)
        if r=="std::pair": return "(%s, %s)"%tuple(s.owned(x) for x in a)
        if r=="std::vector" and not a: return "Vec::new()"
        if T.is_field(et) and len(a)==1:
            return s.x_CXXConstructExpr({"k":"CXXConstructExpr","t":et,"c":a,"copy":False,"move":False,"ctor":{"fk":-1},"default":False,"implicit":False}).code
        # in-scope constructor: find by arity and types
        cands=[f for f in W.dump["functions"] if f.get("ctor") and T.strip(f["rec"])==et and len(f["params"])==len(a)]
        def ok(f):
            for p,x in zip(f["params"],a):
                if T.strip(p["t"])!=T.strip(x["t"]):
                    if not(isinstance(T.strip(p["t"]),str) and isinstance(T.strip(x["t"]),str)): return False
            return True
        cands=[f for f in cands if ok(f)]
        if len(cands)!=1: raise Unsupported("emplace constructor of %s (%d candidates)"%(r,len(cands)))
        return s.call_fn(cands[0],None,a,n).code
    W.construct=construct
    @d("std::vector::resize")
    def _(s,n,obj,a):
        v=s.ev(obj); et=vec_elem(n["rec"]); k=s.ev(a[0])
        x=s.owned(a[1]) if len(a)>1 else s.default_value(et)
        s.emit("cpp_resize(%s, %s, %s);"%(s.refto(v,True),k.code,x)); return V("()","void")
    @d("std::vector::assign")
    def _(s,n,obj,a):
        if len(a)!=2: raise Unsupported("assign form")
        t=W.T.strip(a[0]["t"])
        if not isinstance(t,str) or "*" in t: raise Unsupported("assign from a range")
        v=s.ev(obj); k=s.ev(a[0]); x=s.owned(a[1])
        s.emit("cpp_assign(%s, %s, %s);"%(s.refto(v,True),k.code,x)); return V("()","void")
    @d("std::vector::swap")
    def _(s,n,obj,a):
        v=s.ev(obj); w=s.ev(a[0]); return swap(s,v,w)
    def swap(s,v,w):
        if w.kind=="val" or v.kind=="val":
            x,y=(v,w) if w.kind=="val" else (w,v)
            s.emit("%s = %s;"%(x.code,y.code)); return V("()","void")
        if v.kind=="iter" : raise Unsupported("swap of iterators")
        # distinct locals / fields
        import re
        if T.is_copy(v.ty) or re.search(r"\[",v.code) or re.search(r"\[",w.code):
            t=s.fresh("sw"); u=s.fresh("sw")
            s.emit("let %s = %s;"%(t,s.own(v))); s.emit("let %s = %s;"%(u,s.own(w)))
            s.emit("%s = %s;"%(v.code,u)); s.emit("%s = %s;"%(w.code,t)); return V("()","void")
        s.emit("core::mem::swap(%s, %s);"%(s.refto(v,True),s.refto(w,True))); return V("()","void")
    @d("std::swap std::iter_swap")
    def _(s,n,obj,a):
        v,w=s.evlist(a)
        if n["f"]["name"]=="iter_swap": v=s.deref_iter(v); w=s.deref_iter(w); v.ty=w.ty=vec_t(a[0])
        return swap(s,v,w)
    def vec_t(x): return None
    @d("std::move std::forward")
    def _(s,n,obj,a):
        v=s.ev(a[0])
        if v.kind=="place" and not T.is_copy(v.ty): return V("cpp_take(%s)"%s.refto(v,True),"val",v.ty)
        return v
    @d("std::get")
    def _(s,n,obj,a):
        v=s.ev(a[0]); i=n["ta"][0]; return V("%s.%d"%(cont(v),i),"place",n["t"])
    @d("std::make_pair")
    def _(s,n,obj,a):
        xs=[s.own(v,x["t"]) for v,x in zip(s.evlist(a),a)]; return V("(%s, %s)"%tuple(xs),ty=n["t"])
    @d("std::make_tuple")
    def _(s,n,obj,a):
        xs=[s.own(v,x["t"]) for v,x in zip(s.evlist(a),a)]; return V("(%s,)"%", ".join(xs),ty=n["t"])
    @d("std::min std::max")
    def _(s,n,obj,a):
        x,y=s.evlist(a); c="<" if n["f"]["name"]=="min" else ">"
        t=T.rust(n["t"])
        if T.strip(n["t"]) in("double","float"): return V("cpp_f%s(%s, %s)"%(n["f"]["name"],x.code,y.code),ty=n["t"])
        return V("cpp_%s_%s(%s, %s)"%(n["f"]["name"],t,x.code,y.code),ty=n["t"])
    @d("std::gcd")
    def _(s,n,obj,a):
        x,y=s.evlist(a); t=T.rust(n["t"]); return V("cpp_gcd_%s(%s, %s)"%(t,x.code,y.code),ty=n["t"])
    def whole(s,b,e):
        return b.code=="0" and e.kind=="iter" and b.cont is not None and e.code=="%s.len()"%cont(b.cont) and cont(b.cont)==cont(e.cont)
    @d("std::sort")
    def _(s,n,obj,a):
        b=s.ev(a[0]); e=s.ev(a[1])
        if len(a)!=2: return W.sort_cmp(s,n,b,e,a[2])
        if not whole(s,b,e): raise Unsupported("sort of a subrange")
        et=W.elem_kind(s,b,a[0])
        k=s.nsort=getattr(s,"nsort",-1)+1
        s.at("before sort %d"%k); s.emit("cpp_sort_%s(%s);"%(et,s.refto(b.cont,True))); s.at("after sort %d"%k); return V("()","void")
    @d("std::reverse")
    def _(s,n,obj,a):
        b=s.ev(a[0]); e=s.ev(a[1])
        if not whole(s,b,e): raise Unsupported("reverse of a subrange")
        s.emit("cpp_reverse(%s);"%s.refto(b.cont,True)); return V("()","void")
    @d("std::_V2::rotate std::rotate")
    def _(s,n,obj,a):
        b,m,e=s.evlist(a)
        if not whole(s,b,e): raise Unsupported("rotate of a subrange")
        s.emit("cpp_rotate(%s, %s);"%(s.refto(b.cont,True),m.code)); return V("()","void")
    @d("std::end")
    def _(s,n,obj,a): v=s.ev(a[0]); return V("%s.len()"%cont(v),"iter",n["t"],cont=v)
    @d("std::begin")
    def _(s,n,obj,a): v=s.ev(a[0]); return V("0","iter",n["t"],cont=v,stable=True)
    @d("std::iota")
    def _(s,n,obj,a):
        b=s.ev(a[0]); e=s.ev(a[1]); v=s.ev(a[2])
        if not whole(s,b,e): raise Unsupported("iota of a subrange")
        x=s.conv_int(v,a[2]["t"],"unsigned long",n)
        s.emit("cpp_iota(%s, %s);"%(s.refto(b.cont,True),x.code)); return V("()","void")
    @d("std::fill")
    def _(s,n,obj,a):
        b=s.ev(a[0]); e=s.ev(a[1]); v=s.ev(a[2])
        if not whole(s,b,e): raise Unsupported("fill of a subrange")
        s.emit("cpp_fill(%s, %s);"%(s.refto(b.cont,True),v.code)); return V("()","void")
    @d("std::lower_bound std::upper_bound")
    def _(s,n,obj,a):
        if len(a)!=3: raise Unsupported("lower_bound with comparator")
        b,e,k=s.evlist(a)
        et=W.elem_kind(s,b,a[0])
        kk=k.code
        return V("cpp_%s_%s(%s, %s, %s, %s)"%(n["f"]["name"],et,s.refto(b.cont),b.code,e.code,kk),"iter",n["t"],cont=b.cont)
    @d("std::find")
    def _(s,n,obj,a):
        b,e,k=s.evlist(a); et=W.elem_kind(s,b,a[0])
        if et!="usize": raise Unsupported("find in a vector of %s"%et)
        return V("cpp_find_usize(%s, %s, %s, %s)"%(s.refto(b.cont),b.code,e.code,k.code),"iter",n["t"],cont=b.cont)
    @d("std::numeric_limits::infinity")
    def _(s,n,obj,a):
        t=T.rust(n["t"])
        return V("cpp_inf_%s()"%t,ty=n["t"])
    @d("std::distance")
    def _(s,n,obj,a):
        b,e=s.evlist(a); return V("cpp_idiff(%s, %s)"%(e.code,b.code),ty="long")
    @d("std::vector::erase")
    def _(s,n,obj,a):
        import re
        v=s.ev(obj); its=s.evlist(a)
        ke=s.nerase=getattr(s,"nerase",-1)+1
        for x,nm in zip(its,("erb%d"%ke,"ere%d"%ke)):
            if len(its)==2: s.emit("let %s = %s;"%(nm,x.code)); x.code=nm
            elif not re.match(r"^\w+$",x.code): s.emit("let %s = %s;"%(nm,x.code)); x.code=nm
        for x in its:
            if x.cont is not None: s.same_cont(V("",cont=x.cont),V("",cont=v))
        s.at("before erase %d"%ke)
        if len(its)==1: s.emit("cpp_erase1(%s, %s);"%(s.refto(v,True),its[0].code))
        else: s.emit("cpp_erase(%s, %s, %s);"%(s.refto(v,True),its[0].code,its[1].code))
        s.at("after erase %d"%ke)
        return V(its[0].code,"iter",n["t"],cont=v)
    @d("std::vector::insert std::vector::emplace")
    def _(s,n,obj,a):
        if len(a)==3 and all(T.is_iter(x["t"]) for x in a):
            v=s.ev(obj); vs=s.evlist(a)
            s.ninsr=getattr(s,"ninsr",-1)+1; t="insr%d"%s.ninsr; s.emit("let %s = %s;"%(t,vs[0].code))
            s.emit("cpp_insert_range(%s, %s, %s, %s, %s);"%(s.refto(v,True),t,s.refto(vs[1].cont),vs[1].code,vs[2].code)); return V(vs[0].code,"iter",n["t"],cont=v)
        if len(a)!=2: raise Unsupported("vector::insert form")
        v=s.ev(obj); vs=s.evlist([a[0],a[1]])
        it=vs[0].code; ki=s.ninsert=getattr(s,"ninsert",-1)+1
        import re
        if not re.match(r"^\w+$",it):
            t="ins%d"%ki; s.emit("let %s = %s;"%(t,it)); it=t
        x=s.own(vs[1],a[1]["t"])
        s.at("before insert %d"%ki)
        s.emit("cpp_insert(%s, %s, %s);"%(s.refto(v,True),it,x)); s.at("after insert %d"%ki); return V(it,"iter",n["t"],cont=v)
    # std::map / std::unordered_map with integer keys; operator[] inserts a default value when the key is absent
    def map_types(t):
        t=T.strip(t); return t["a"][0],T.strip(t["a"][1])
    @d("std::map::operator[] std::unordered_map::operator[]")
    def _(s,n,obj,a):
        k=s.ev(a[0]); kt,vt=map_types(n["rec"])
        if T.rec(vt)!="std::vector" and T.rust(vt)!="usize": raise Unsupported("map to %s"%T.rust(vt))
        s.nmapk=getattr(s,"nmapk",-1)+1; kk="mapk%d"%s.nmapk
        s.emit("let %s = %s;"%(kk,k.code))
        v=s.ev(obj); r=V("(*%s(%s, %s))"%("cpp_map_at_vec" if T.rec(vt)=="std::vector" else "cpp_map_at_num",s.refto(v,True),kk),"place",vt); return r
    @d("std::map::count std::unordered_map::count")
    def _(s,n,obj,a):
        v,k=s.evlist([obj,a[0]]); return V("cpp_map_count(%s, %s)"%(s.refto(v),k.code),ty="unsigned long")
    @d("std::map::erase std::unordered_map::erase")
    def _(s,n,obj,a):
        if len(a)!=1 or T.is_iter(a[0]["t"]): raise Unsupported("map erase by iterator")
        v,k=s.evlist([obj,a[0]]); s.emit("cpp_map_erase(%s, %s);"%(s.refto(v,True),k.code)); return V("1","val",ty="unsigned long")
    @d("std::map::clear std::unordered_map::clear")
    def _(s,n,obj,a): v=s.ev(obj); s.emit("cpp_map_clear(%s);"%s.refto(v,True)); return V("()","void")
    @d("std::map::size std::unordered_map::size")
    def _(s,n,obj,a): v=s.ev(obj); return V("cpp_map_len(%s)"%s.refto(v),ty="unsigned long")
    def vec_ctor(s,n,t,args):
        et=vec_elem(t); args=[x for x in args if T.rec(T.strip(x["t"]))!="std::allocator"]
        if not args: return V("Vec::new()",ty=t)
        if n.get("listinit") or (len(args)==1 and args[0]["k"]=="InitListExpr"):
            xs=args[0].get("c",[]) if args[0]["k"]=="InitListExpr" else None
            if xs is not None:
                nm=s.fresh("il"); s.emit("let mut %s: %s = Vec::new();"%(nm,T.rust(t)))
                for x in xs: s.emit("%s.push(%s);"%(nm,s.owned(x)))
                return V(nm,"val",t,stable=True)
        ints=[x for x in args if isinstance(T.strip(x["t"]),str)]
        if len(args)==1 and ints: return V("cpp_vec_fill(%s, %s)"%(s.ev(args[0]).code,s.default_value(et)),ty=t)
        if len(args)==2 and ints and isinstance(T.strip(args[0]["t"]),str):
            a,b=s.evlist(args); return V("cpp_vec_fill(%s, %s)"%(a.code,s.own(b,args[1]["t"])),ty=t)
        if len(args)==2 and all(T.is_iter(x["t"]) for x in args):
            b,e=s.evlist(args)
            return V("cpp_vec_range(%s, %s, %s)"%(s.refto(b.cont),b.code,e.code),ty=t)
        if len(args)==1 and T.rec(T.strip(args[0]["t"]))=="std::allocator": return V("Vec::new()",ty=t)
        raise Unsupported("vector constructor with %d args"%len(args))
    C["std::vector"]=vec_ctor
    def pair_ctor(s,n,t,args):
        if len(args)==2: return V("(%s, %s)"%tuple(s.own(v,x["t"]) for v,x in zip(s.evlist(args),args)),ty=t)
        if not args: return V(s.default_value(t),ty=t)
        return None
    C["std::pair"]=pair_ctor
    def tuple_ctor(s,n,t,args):
        return V("(%s,)"%", ".join(s.own(v,x["t"]) for v,x in zip(s.evlist(args),args)),ty=t)
    C["std::tuple"]=tuple_ctor
    def bitref(s,n,t,args):
        return None
    # vector<bool>
    def bitbool(s,n,obj,a): return s.ev(obj)
    S["std::_Bit_reference::operator bool"]=bitbool
    @d("std::_Bit_reference::operator=")
    def _(s,n,obj,a):
        b=s.ev(a[0]); v=s.ev(obj); s.emit("%s = %s;"%(v.code,b.code)); return v
    @d("std::stable_sort")
    def _(s,n,obj,a):
        b=s.ev(a[0]); e=s.ev(a[1])
        if len(a)!=3: raise Unsupported("stable_sort without comparator")
        return W.sort_cmp(s,n,b,e,a[2],"stable_")
    def sort_cmp(s,n,b,e,cmp,pre=""):
        if not whole(s,b,e): raise Unsupported("sort of a subrange")
        k=s.nsort=getattr(s,"nsort",-1)+1
        v=s.ev(cmp)
        if v.kind!="lambda": raise Unsupported("sort comparator is not a lambda")
        lam,env0=v.extra
        body=lam["body"].get("c",[])
        if len(body)!=1 or body[0]["k"]!="ReturnStmt": raise Unsupported("multi-statement comparator")
        names=[]; env=dict(env0)
        for q in lam["params"]:
            nm=s.name(q["name"],q["id"]); s.locals.append(nm); names.append((nm,T.rust(q["t"])))
            if not T.is_copy(q["t"]): raise Unsupported("comparator over non-copyable elements")
            env[q["id"]]=V(nm,"place",q["t"],stable=True)
        saved=s.env; s.env=env; mark=len(s.lines)
        try: r=s.ev(body[0]["c"][0])
        finally: s.env=saved
        if len(s.lines)!=mark: raise Unsupported("comparator with side effects")
        at=s.c.at
        def g(x):
            s.used_at.add(x); return " ".join(at.get(x,[])).strip()
        req=g("cmp %d requires"%k); spec=g("cmp %d spec"%k)
        if not spec: raise Unsupported("no specification for comparator %d"%k)
        (p1,t1),(p2,t2)=names
        s.emit("let cmp%d = |%s: %s, %s: %s| -> (r: bool) %s ensures r == (%s) { %s };"%(k,p1,t1,p2,t2,"requires %s"%req if req else "",spec,r.code))
        s.emit("let ghost lt%d: spec_fn(%s, %s) -> bool = |%s: %s, %s: %s| %s;"%(k,t1,t2,p1,t1,p2,t2,spec))
        s.at("before sort %d"%k)
        s.emit("let srt%d = cpp_%ssort_by(%s, cmp%d, Ghost(lt%d));"%(k,pre,s.refto(b.cont,True),k,k))
        s.at("after sort %d"%k)
        return V("()","void")
    W.sort_cmp=sort_cmp
    @d("std::binary_search")
    def _(s,n,obj,a):
        if len(a)!=3: raise Unsupported("binary_search with comparator")
        b=s.ev(a[0]); e=s.ev(a[1]); x=s.ev(a[2]); et=W.elem_kind(s,b,a[0])
        if et!="usize": raise Unsupported("binary_search over "+et)
        return V("cpp_binary_search_%s(%s, %s, %s, %s)"%(et,s.refto(b.cont),b.code,e.code,x.code),ty=n["t"])
    # SparseTrie: a map from vertex lists to indices (assumed contracts in cpx.rs)
    def is_spx(n):
        t=T.strip(n["t"]); return T.rec(t)=="std::vector" and T.rust(vec_elem(t))=="usize"
    @d("bats::SparseTrie::emplace")
    def _(s,n,obj,a):
        if len(a)!=2 or not is_spx(a[0]): raise Unsupported("SparseTrie::emplace form")
        v,k,x=s.evlist([obj,a[0],a[1]]); s.emit("trie_emplace(%s, %s, %s);"%(s.refto(v,True),s.refto(k),x.code)); return V("()","void")
    @d("bats::SparseTrie::operator[]")
    def _(s,n,obj,a):
        if len(a)!=1 or not is_spx(a[0]): raise Unsupported("SparseTrie::operator[] form")
        v,k=s.evlist([obj,a[0]]); return V("trie_at(%s, %s)"%(s.refto(v),s.refto(k)),ty=n["t"])
    @d("bats::SparseTrie::get")
    def _(s,n,obj,a):
        if len(a)!=2 or not is_spx(a[0]): raise Unsupported("SparseTrie::get form")
        v,k,x=s.evlist([obj,a[0],a[1]]); return V("trie_get(%s, %s, %s)"%(s.refto(v),s.refto(k),x.code),ty=n["t"])
    @d("bats::SparseTrie::count")
    def _(s,n,obj,a):
        if len(a)!=1 or not is_spx(a[0]): raise Unsupported("SparseTrie::count form")
        v,k=s.evlist([obj,a[0]]); return V("trie_count(%s, %s)"%(s.refto(v),s.refto(k)),ty=n["t"])
    C["bats::SparseTrie"]=lambda s,n,t,args: V("trie_new()",ty=t) if not args else (_ for _ in ()).throw(Unsupported("SparseTrie constructor form"))
    @d("std::vector::capacity")
    def _(s,n,obj,a): return V("cpp_capacity(%s)"%s.refto(s.ev(obj)),ty=n["t"])
    # point sets, metrics and distance matrices (assumed contracts in cpx.rs)
    @d("bats::DataSet::size")
    def _(s,n,obj,a): return V("dset_size(%s)"%s.refto(s.ev(obj)),ty=n["t"])
    @d("bats::DataSet::operator[]")
    def _(s,n,obj,a):
        if len(a)!=1 or T.rust(a[0]["t"])!="usize": raise Unsupported("DataSet::operator[] form")
        v,i=s.evlist([obj,a[0]]); return V("dset_row(%s, %s)"%(s.refto(v),i.code),ty=n["t"])
    @d("bats::AbstractMetric::operator() bats::AbstractMetric::dist bats::Euclidean::dist")
    def _(s,n,obj,a):
        if len(a)!=2 or any(T.rec(T.strip(x["t"]))!="VectorView" for x in a): raise Unsupported("metric call form")
        v,x,y=s.evlist([obj,a[0],a[1]]); return V("metric_dist(%s, %s, %s)"%(s.refto(v),x.code,y.code),ty=n["t"])
    @d("A::ncol A::nrow Dense::ncol Dense::nrow")
    def _(s,n,obj,a): return V("dmat_size(%s)"%s.refto(s.ev(obj)),ty=n["t"])
    @d("A::operator() Dense::operator()")
    def _(s,n,obj,a):
        if len(a)!=2: raise Unsupported("dense access form")
        v,i,j=s.evlist([obj,a[0],a[1]]); return V("dmat_at(%s, %s, %s)"%(s.refto(v),i.code,j.code),ty=n["t"])
    @d("std::vector::shrink_to_fit")
    def _(s,n,obj,a): return V("()","void")
    @d("std::vector::data")
    def _(s,n,obj,a): v=s.ev(obj); return V("0","iter",n["t"],cont=v,stable=True)
    @d("std::copy")
    def _(s,n,obj,a):
        b,e,o=s.evlist(a)
        s.emit("cpp_range_copy(%s, %s, %s, %s, %s);"%(s.refto(b.cont),b.code,e.code,s.refto(o.cont,True),o.code)); return V("(%s + (%s - %s))"%(o.code,e.code,b.code),"iter",n["t"],cont=o.cont)
    def elem_kind(s,b,node):
        et=None
        t=b.cont.ty
        if t is not None and T.rec(T.strip(t))=="std::vector": et=T.rust(vec_elem(t))
        if et is None:
            it=T.strip(node["t"]); a=it["a"][0]
            if isinstance(a,dict) and "ptr" in a: et=T.rust(a["ptr"])
        if et is None: raise Unsupported("element type of range")
        import re
        k=re.sub(r"\W","",et.split("<")[0]).lower()
        lt=T.c.get("order_of",{}).get(k)   # the comparison the library call uses: its contract is part of the proof
        if lt:
            if lt not in W.contracts: raise Unsupported("no contract for "+lt)
            s.callees.add(lt)
        return k
    W.elem_kind=elem_kind
