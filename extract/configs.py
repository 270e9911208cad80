"""Translation units for the extractor: which driver instantiates the templates, how C++ records map to Rust structs."""
from cxx2verus import Unsupported
def PPAIR(T,t):
    if T.rust(t["a"][0])=="usize": return "PPairU"
    if T.rust(t["a"][0])!="i32": raise Unsupported("persistence pair over "+T.rust(t["a"][0]))
    return "PPair"
def DGM(T,t):
    n=t["a"][0]; e=t["a"][1]
    if T.rust(n)!="usize" or not isinstance(e,dict) or e.get("r")!="ColumnMatrix": raise Unsupported("diagram of other types")
    return "Dgm<%s>"%T.rust(e["a"][0]["a"][0])
def FEDGE(T,t):
    if T.rust(t["a"][0])!="i32": raise Unsupported("filtered edges over "+T.rust(t["a"][0]))
    return "FEdge"
def FILT(T,t):
    if T.rust(t["a"][0])!="i32" or T.rec(T.strip(t["a"][1]))!="bats::SimplicialComplex": raise Unsupported("filtration of another type")
    return "Filt"
def TRIE(T,t):
    if T.rust(t["a"][0])!="usize" or T.rust(t["a"][1])!="usize": raise Unsupported("trie of other types")
    return "Trie"
def DSET(T,t):
    if T.rust(t["a"][0])!="i32": raise Unsupported("data set over "+T.rust(t["a"][0]))
    return "DSet"
def DMAT(T,t):
    a=t["a"][0]
    if not isinstance(a,dict) or a.get("r")!="Dense" or T.rust(a["a"][0])!="i32": raise Unsupported("dense matrix of another type")
    return "DMat"
LA=dict(driver="driver.cpp", ptr_iter=True, field={"ModP"}, fieldname="F", copy_records={"nzpair","bats::PersistencePair","bats::bar"},
 records={"nzpair":lambda T,t:"Nz<%s>"%T.rust(t["a"][1]),
          "SparseVector":lambda T,t:"SV<%s>"%T.rust(t["a"][0]),
          "ColumnMatrix":lambda T,t:"CM<%s>"%T.rust(t["a"][0]["a"][0]),
          "CSCMatrix":lambda T,t:"CSC<%s>"%T.rust(t["a"][0]),
          "bats::standard_reduction_flag":lambda T,t:"StdRedFlag", "bats::extra_reduction_flag":lambda T,t:"ExtraRedFlag",
          "bats::compute_basis_flag":lambda T,t:"BasisFlag","bats::clearing_flag":lambda T,t:"ClearFlag","bats::compression_flag":lambda T,t:"CompFlag",
          "bats::ChainComplex":lambda T,t:"CC<%s>"%T.rust(t["a"][0]["a"][0]["a"][0]),
          "bats::ReducedChainComplex":lambda T,t:"RCC<%s>"%T.rust(t["a"][0]["a"][0]["a"][0]),
          "bats::FilteredChainComplex":lambda T,t:"FCC<%s>"%T.rust(t["a"][1]["a"][0]["a"][0]),
          "bats::ReducedFilteredChainComplex":lambda T,t:"RFCC<%s>"%T.rust(t["a"][1]["a"][0]["a"][0]),
          "bats::DGVectorSpace":lambda T,t:"DG<%s>"%T.rust(t["a"][0]["a"][0]["a"][0]),
          "bats::ReducedDGVectorSpace":lambda T,t:"RDG<%s>"%T.rust(t["a"][0]["a"][0]["a"][0]),
          "bats::CochainComplex":lambda T,t:"CoC<%s>"%T.rust(t["a"][0]["a"][0]["a"][0]),
          "bats::ReducedCochainComplex":lambda T,t:"RCoC<%s>"%T.rust(t["a"][0]["a"][0]["a"][0]),
          "bats::FilteredDGVectorSpace":lambda T,t:"FDG<%s>"%T.rust(t["a"][1]["a"][0]["a"][0]),
          "bats::ReducedFilteredDGVectorSpace":lambda T,t:"RFDG<%s>"%T.rust(t["a"][1]["a"][0]["a"][0]),
          "bats::ChainMap":lambda T,t:"ChMap<%s>"%T.rust(t["a"][0]["a"][0]["a"][0]),
          "bats::PersistencePair":PPAIR, "SparseFact":lambda T,t:"SFact<%s>"%T.rust(t["a"][0]["a"][0]),
          "bats::Diagram":DGM, "bats::Diagram<unsigned long, ColumnMatrix<SparseVector<F, size_t>>>::Edge":lambda T,t:"DEdge", "bats::bar":lambda T,t:"QBar",
          "bats::flags::divide_conquer":lambda T,t:"DqFlag","bats::flags::rightward":lambda T,t:"RightFlag","bats::flags::leftward":lambda T,t:"LeftFlag"},
 structs=[("nzpair","Nz<F>"),("SparseVector","SV<F>"),("ColumnMatrix","CM<F>"),("CSCMatrix","CSC<F>"),("bats::standard_reduction_flag","StdRedFlag"),("bats::extra_reduction_flag","ExtraRedFlag"),("bats::compute_basis_flag","BasisFlag"),("bats::clearing_flag","ClearFlag"),("bats::compression_flag","CompFlag"),
  ("bats::ChainComplex","CC<F>"),("bats::ReducedChainComplex","RCC<F>"),("bats::FilteredChainComplex","FCC<F>"),("bats::ReducedFilteredChainComplex","RFCC<F>"),("bats::DGVectorSpace","DG<F>"),("bats::ReducedDGVectorSpace","RDG<F>"),("bats::CochainComplex","CoC<F>"),("bats::ReducedCochainComplex","RCoC<F>"),("bats::FilteredDGVectorSpace","FDG<F>"),("bats::ReducedFilteredDGVectorSpace","RFDG<F>"),("bats::ChainMap","ChMap<F>"),("bats::PersistencePair","PPair"),("bats::PersistencePair","PPairU"),("SparseFact","SFact<F>"),("bats::Diagram","Dgm<F>"),("bats::Diagram<unsigned long, ColumnMatrix<SparseVector<F, size_t>>>::Edge","DEdge"),("bats::bar","QBar"),("bats::flags::divide_conquer","DqFlag"),("bats::flags::rightward","RightFlag"),("bats::flags::leftward","LeftFlag")],
 globals={"bats::NO_IND":"NO_IND"}, order_of={"nz":"operator<(Nz<F>, Nz<F>)"},
 header=["pub const NO_IND: usize = 0xffff_ffff_ffff_ffff;"],
 preludes=["core.rs","field.rs","svec.rs","cm.rs"])
UTIL=dict(driver="driver_util.cpp", field=set(), fieldname="F", copy_records={"bats::PersistencePair","bats::filtered_edge","VectorView","cell_ind"}, ptr_iter=True, generics="none",
 records={"bats::PersistencePair":PPAIR,"bats::filtered_edge":FEDGE,"bats::SimplicialComplex":lambda T,t:"Spx","bats::SparseTrie":TRIE,"cell_ind":lambda T,t:"CellInd","bats::Filtration":FILT,"bats::DataSet":DSET,"A":DMAT,"VectorView":lambda T,t:"PtView","bats::Euclidean":lambda T,t:"Metric"},
 structs=[("bats::PersistencePair","PPair"),("bats::filtered_edge","FEdge"),("cell_ind","CellInd"),("bats::SimplicialComplex","Spx"),("bats::Filtration","Filt")],
 order_of={"fedge":"FEdge::operator<(FEdge) const"},
 globals={"bats::NO_IND":"NO_IND"},
 header=["pub const NO_IND: usize = 0xffff_ffff_ffff_ffff;"],
 preludes=["core.rs","cpx.rs"])
FIELD=dict(driver="driver_field.cpp", field=set(), copy_records={"ModP","Rational"}, generics="none", tparams={"P":("P","u32")},
 fn_filter=lambda f: f.get("rec") is not None and f["rec"].get("r") in("ModP","Rational") or f["name"] in("ff_inv","sgn","isprime"),
 records={"ModP":lambda T,t:"Mod2" if t["a"][1]==2 else "ModP<P>" if t["a"][1]==3 else "ModP%d"%t["a"][1], "Rational":lambda T,t:"Rat"},
 structs=[("ModP","ModP<P>"),("ModP","Mod2"),("Rational","Rat")],
 struct_generics={"ModP<P>":"ModP<const P: u32>"},
 header=[], preludes=["core.rs","gcd.rs"])
UNITS={"la":LA,"util":UTIL,"field":FIELD}
