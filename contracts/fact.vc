@unit la
@uses cm_cols cm_rows cm_mul cm_solve cm_pred sv_axpy2 sv_access csc_mul hom_lem
@rust
// ---- LEUP and its relatives ----
pub open spec fn sfwf<F: Field>(S: SFact<F>, m: int, n: int) -> bool {
    &&& cmwf(S.L) && S.L.m == m && S.L.n == m && cmwf(S.E) && S.E.m == m && S.E.n == n
    &&& cmwf(S.U) && S.U.m == n && S.U.n == n && cmwf(S.P) && S.P.m == n && S.P.n == n
}
pub open spec fn kdel<F: Field>(i: int, j: int) -> F { if i == j { F::sone() } else { F::szero() } }
pub open spec fn inpiv(p: Seq<usize>, t: int) -> bool { exists|k: int| 0 <= k < p.len() && #[trigger] p[k] == t }
pub open spec fn ycol<F: Field>(E: CM<F>, U: CM<F>, j: int, c: int) -> spec_fn(int) -> F { |t: int| if c < j { mq(E.n as int, fm(E), colf(fm(U), c), t) } else { cmv(E, t, c) } }
pub open spec fn injperm(sg: Seq<int>, n: int) -> bool { sg.len() == n && (forall|c: int| 0 <= c < n ==> 0 <= #[trigger] sg[c] < n) && forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] sg[a] != #[trigger] sg[b] }
// column c of P is the unit vector sg[c]
pub open spec fn permcols<F: Field>(P: CM<F>, sg: Seq<int>) -> bool { forall|r: int, c: int| 0 <= c < P.n ==> #[trigger] cmv(P, r, c) == kdel::<F>(r, sg[c]) }
// done columns (first j) of E hold the pivots, the first len(pivs) of them one entry each
pub open spec fn epiv<F: Field>(E: CM<F>, pivs: Seq<usize>, j: int) -> bool {
    &&& forall|k: int, t: int| 0 <= k < pivs.len() && t != pivs[k] ==> #[trigger] cmv(E, t, k) == F::szero()
    &&& forall|k: int, t: int| pivs.len() <= k < j ==> #[trigger] cmv(E, t, k) == F::szero()
}
pub open spec fn leup_val<F: Field>(A: CM<F>, S: SFact<F>, sg: Seq<int>, j: int, r: int, c: int) -> bool { cmv(A, r, sg[c]) == mq(A.m as int, fm(S.L), ycol(S.E, S.U, j, c), r) }
pub open spec fn pivok(pivs: Seq<usize>, i: int) -> bool { (forall|a: int, b: int| 0 <= a < b < pivs.len() ==> #[trigger] pivs[a] < #[trigger] pivs[b]) && forall|a: int| 0 <= a < pivs.len() ==> (#[trigger] pivs[a]) < i }
pub open spec fn erest<F: Field>(E: CM<F>, pivs: Seq<usize>, i: int, j: int) -> bool { forall|t: int, c: int| j <= c < E.n && t < i && !inpiv(pivs, t) ==> #[trigger] cmv(E, t, c) == F::szero() }
pub open spec fn einv<F: Field>(E: CM<F>, pivs: Seq<usize>, coeff: Seq<F>) -> bool { forall|k: int| 0 <= k < pivs.len() ==> F::smul(#[trigger] coeff[k], cmv(E, pivs[k] as int, k)) == F::sone() }
pub open spec fn lshape<F: Field>(L: CM<F>, i: int) -> bool { forall|r: int, t: int| 0 <= t < L.n && (t >= i || r <= t) ==> #[trigger] cmv(L, r, t) == kdel::<F>(r, t) }
pub open spec fn ushape<F: Field>(U: CM<F>, j: int) -> bool { forall|k: int, c: int| 0 <= c < U.n && (c >= j || k >= c) ==> #[trigger] cmv(U, k, c) == kdel::<F>(k, c) }
#[verifier::opaque]
pub open spec fn leup_inv<F: Field>(A: CM<F>, S: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int, j: int) -> bool {
    &&& cmwf(A) && sfwf(S, A.m as int, A.n as int) && pivs.len() == coeff.len() && pivs.len() <= j && 0 <= j <= A.n && 0 <= i <= A.m
    &&& pivok(pivs, i) && epiv(S.E, pivs, j) && einv(S.E, pivs, coeff) && erest(S.E, pivs, i, j) && lshape(S.L, i) && ushape(S.U, j)
    &&& injperm(sg, A.n as int) && permcols(S.P, sg)
    &&& forall|r: int, c: int| 0 <= r < A.m && 0 <= c < A.n ==> #[trigger] leup_val(A, S, sg, j, r, c)
}
pub proof fn leup_facts<F: Field>(A: CM<F>, S: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int, j: int)
    requires leup_inv(A, S, pivs, coeff, sg, i, j)
    ensures cmwf(A), sfwf(S, A.m as int, A.n as int), pivs.len() == coeff.len(), pivs.len() <= j <= A.n, 0 <= i <= A.m
{ reveal(leup_inv); }
pub proof fn leup_init<F: Field>(A: CM<F>, S: SFact<F>) -> (sg: Seq<int>)
    requires cmwf(A), S.E == A, sfwf(S, A.m as int, A.n as int), lshape(S.L, 0), ushape(S.U, 0), ushape(S.P, 0)
    ensures leup_inv(A, S, Seq::<usize>::empty(), Seq::<F>::empty(), sg, 0, 0)
{
    broadcast use field_basic; reveal(leup_inv);
    let sg = Seq::new(A.n as nat, |c: int| c);
    assert forall|t: int, c: int| 0 <= c < A.n && t < 0 implies #[trigger] cmv(S.E, t, c) == F::szero() by { sval_out(A.col@[c].indval@, A.m as int); }
    assert forall|r: int, c: int| 0 <= r < A.m && 0 <= c < A.n implies #[trigger] leup_val(A, S, sg, 0, r, c) by {
        let f = mqf(fm(S.L), ycol(S.E, S.U, 0, c), r);
        assert forall|t: int| 0 <= t < A.m && t != r implies #[trigger] f(t) == F::szero() by { assert(cmv(S.L, r, t) == kdel::<F>(r, t)); }
        assert(cmv(S.L, r, r) == kdel::<F>(r, r));
        fsum_one(A.m as int, f, r);
    }
    sg
}
// entry (t, c) of E U for a done column
pub proof fn eu_val<F: Field>(E: CM<F>, U: CM<F>, pivs: Seq<usize>, j: int, c: int, t: int)
    requires epiv(E, pivs, j), 0 <= c < j <= E.n, pivs.len() <= j, pivok(pivs, usize::MAX + 1), forall|k: int| j <= k < E.n ==> #[trigger] cmv(U, k, c) == F::szero()
    ensures forall|k: int| 0 <= k < pivs.len() && #[trigger] pivs[k] == t ==> mq(E.n as int, fm(E), colf(fm(U), c), t) == F::smul(cmv(U, k, c), cmv(E, t, k)),
        !inpiv(pivs, t) ==> mq(E.n as int, fm(E), colf(fm(U), c), t) == F::szero()
{
    broadcast use field_basic;
    let n = E.n as int; let f = mqf(fm(E), colf(fm(U), c), t);
    assert forall|k: int| 0 <= k < n && !(k < pivs.len() && pivs[k] == t) implies #[trigger] f(k) == F::szero() by { if k < j { assert(cmv(E, t, k) == F::szero()); } else { assert(cmv(U, k, c) == F::szero()); } }
    if inpiv(pivs, t) { let k = choose|k: int| 0 <= k < pivs.len() && #[trigger] pivs[k] == t; 
        assert forall|l: int| 0 <= l < pivs.len() && #[trigger] pivs[l] == t implies l == k by { if l < k { assert(pivs[l] < pivs[k]); } if k < l { assert(pivs[k] < pivs[l]); } }
        fsum_one(n, f, k); } else { fsum_zero(n, f); }
}
pub proof fn two_bump<F: Field>(m: int, f: spec_fn(int) -> F, g: spec_fn(int) -> F, i: int, r: int, b: F)
    requires 0 <= i < r < m, f(i) == F::szero(), g(r) == b, F::sadd(g(i), b) == f(r), forall|t: int| 0 <= t < m && t != i && t != r ==> #[trigger] f(t) == g(t)
    ensures fsum(m, f) == fsum(m, g)
{
    broadcast use field_basic;
    let h = |t: int| if t == i || t == r { F::szero() } else { f(t) };
    let h2 = |t: int| if t == r { F::szero() } else { g(t) };
    fsum_bump(m, h, f, r, f(r)); fsum_bump(m, h, h2, i, g(i)); fsum_bump(m, h2, g, r, b);
    F::ax_add_assoc(fsum(m, h), g(i), b);
}
pub proof fn leup_skip<F: Field>(A: CM<F>, S: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int, j: int)
    requires leup_inv(A, S, pivs, coeff, sg, i, j), i < A.m, forall|c: int| j <= c < A.n ==> #[trigger] cmv(S.E, i, c) == F::szero()
    ensures leup_inv(A, S, pivs, coeff, sg, i + 1, j)
{ reveal(leup_inv); }
pub open spec fn swapat<T>(s: Seq<T>, a: int, b: int, k: int) -> T { s[if k == a { b } else if k == b { a } else { k }] }
pub proof fn leup_swap<F: Field>(A: CM<F>, S: SFact<F>, S2: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int, j: int, j2: int) -> (sg2: Seq<int>)
    requires leup_inv(A, S, pivs, coeff, sg, i, j), j <= j2 < A.n, S2.L == S.L, S2.U == S.U, sfwf(S2, A.m as int, A.n as int), forall|c: int| 0 <= c < A.n ==> #[trigger] S2.E.col@[c] == swapat(S.E.col@, j, j2, c), forall|c: int| 0 <= c < A.n ==> #[trigger] S2.P.col@[c] == swapat(S.P.col@, j, j2, c),
    ensures leup_inv(A, S2, pivs, coeff, sg2, i, j)
{
    broadcast use field_basic; reveal(leup_inv);
    let n = A.n as int; let sg2 = Seq::new(A.n as nat, |c: int| swapat(sg, j, j2, c));
    assert forall|t: int, c: int| 0 <= c < n implies #[trigger] cmv(S2.E, t, c) == cmv(S.E, t, if c == j { j2 } else if c == j2 { j } else { c }) by { assert(S2.E.col@[c] == swapat(S.E.col@, j, j2, c)); }
    assert forall|t: int, c: int| 0 <= c < n implies #[trigger] cmv(S2.P, t, c) == kdel::<F>(t, sg2[c]) by { assert(S2.P.col@[c] == swapat(S.P.col@, j, j2, c)); let d = if c == j { j2 } else if c == j2 { j } else { c }; assert(cmv(S.P, t, d) == kdel::<F>(t, sg[d])); }
    assert(einv(S2.E, pivs, coeff)) by { assert forall|k: int| 0 <= k < pivs.len() implies F::smul(#[trigger] coeff[k], cmv(S2.E, pivs[k] as int, k)) == F::sone() by { assert(cmv(S2.E, pivs[k] as int, k) == cmv(S.E, pivs[k] as int, k)); } }
    assert forall|r: int, c: int| 0 <= r < A.m && 0 <= c < A.n implies #[trigger] leup_val(A, S2, sg2, j, r, c) by {
        let d = if c == j { j2 } else if c == j2 { j } else { c };
        assert(leup_val(A, S, sg, j, r, d)); let y = ycol(S.E, S.U, j, d); let y2 = ycol(S2.E, S2.U, j, c);
        assert forall|t: int| 0 <= t < A.m implies #[trigger] y2(t) == y(t) by {
            if c < j {
                let f = mqf(fm(S.E), colf(fm(S.U), c), t); let f2 = mqf(fm(S2.E), colf(fm(S2.U), c), t);
                assert forall|k: int| 0 <= k < n implies #[trigger] f2(k) == f(k) by { if k >= j { assert(cmv(S.U, k, c) == kdel::<F>(k, c)); } else { assert(cmv(S2.E, t, k) == cmv(S.E, t, k)); } }
                fsum_ext(n, f2, f);
            } else { assert(cmv(S2.E, t, c) == cmv(S.E, t, d)); }
        }
        mq_ext(A.m as int, fm(S2.L), fm(S.L), y2, y, r);
    }
    sg2
}
// cpre of a column still to be done
pub proof fn leup_cpre<F: Field>(A: CM<F>, S: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int, j: int)
    requires leup_inv(A, S, pivs, coeff, sg, i, j), j < A.n
    ensures cpre(S.E.col@[j].indval@, pivs)
{
    reveal(leup_inv); let x = S.E.col@[j].indval@;
    assert forall|k: int| 0 <= k < x.len() implies (exists|q: int| 0 <= q < pivs.len() && #[trigger] pivs[q] == (#[trigger] x[k]).ind) || (forall|q: int| 0 <= q < pivs.len() ==> #[trigger] pivs[q] < x[k].ind) by {
        let t = x[k].ind as int; sc_some(x, A.m as int, k);
        assert(cmv(S.E, t, j) != F::szero());
        if t < i { assert(inpiv(pivs, t)); } 
    }
}
pub open spec fn ucol<F: Field>(S: SFact<F>, U2: CM<F>, coeff: Seq<F>, pivs: Seq<usize>, j: int) -> bool {
    &&& cmwf(U2) && U2.m == S.U.m && U2.n == S.U.n
    &&& forall|c: int| 0 <= c < S.U.n && c != j ==> #[trigger] U2.col@[c] == S.U.col@[c]
    &&& forall|k: int| #[trigger] cmv(U2, k, j) == ctarget(S.U.col@[j].indval@, S.E.col@[j].indval@, coeff, pivs, k)
}
pub proof fn leup_u<F: Field>(A: CM<F>, S: SFact<F>, U2: CM<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int, j: int)
    requires leup_inv(A, S, pivs, coeff, sg, i, j), j < A.n, ucol(S, U2, coeff, pivs, j)
    ensures ushape(U2, j + 1), forall|k: int| 0 <= k < pivs.len() ==> #[trigger] cmv(U2, k, j) == F::smul(coeff[k], cmv(S.E, pivs[k] as int, j))
{
    broadcast use field_basic; reveal(leup_inv);
    assert forall|k: int, c: int| 0 <= c < U2.n && (c >= j + 1 || k >= c) implies #[trigger] cmv(U2, k, c) == kdel::<F>(k, c) by { 
        assert(cmv(S.U, k, c) == kdel::<F>(k, c)); if c == j { assert(cmv(U2, k, j) == cmv(U2, k, j)); } else { assert(U2.col@[c] == S.U.col@[c]); } }
    assert forall|k: int| 0 <= k < pivs.len() implies #[trigger] cmv(U2, k, j) == F::smul(coeff[k], cmv(S.E, pivs[k] as int, j)) by { assert(cmv(S.U, k, j) == kdel::<F>(k, j)); }
}
#[verifier::rlimit(60)]
pub proof fn leup_pivot<F: Field>(A: CM<F>, S: SFact<F>, S2: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: usize, j: int, a11: F)
    requires leup_inv(A, S, pivs, coeff, sg, i as int, j), pivs.len() == j, i < A.m, j < A.n, a11 == cmv(S.E, i as int, j), a11 != F::szero(),
        sfwf(S2, A.m as int, A.n as int), S2.P == S.P, ucol(S, S2.U, coeff, pivs, j),
        forall|c: int| 0 <= c < j ==> #[trigger] S2.E.col@[c] == S.E.col@[c],
        forall|r: int| #[trigger] cmv(S2.E, r, j) == if r == i { a11 } else { F::szero() },
        forall|r: int, c: int| j < c < A.n ==> #[trigger] cmv(S2.E, r, c) == F::sadd(cmv(S.E, r, c), F::smul(F::sneg(F::smul(cmv(S.E, i as int, c), F::sinv(a11))), xin(S.E.col@[j].indval@, i + 1, A.m as int, r))),
        forall|t: int| 0 <= t < A.m && t != i ==> #[trigger] S2.L.col@[t] == S.L.col@[t],
        forall|r: int| #[trigger] cmv(S2.L, r, i as int) == F::sadd(cmv(S.L, r, i as int), F::smul(F::sinv(a11), xin(S.E.col@[j].indval@, i + 1, A.m as int, r))),
    ensures leup_inv(A, S2, pivs.push(i), coeff.push(F::sinv(a11)), sg, i + 1, j + 1)
{
    broadcast use field_basic; 
    leup_u(A, S, S2.U, pivs, coeff, sg, i as int, j); reveal(leup_inv);
    let m = A.m as int; let n = A.n as int; let p2 = pivs.push(i); let c2 = coeff.push(F::sinv(a11)); let iv = F::sinv(a11); let ii = i as int;
    F::ax_inv(a11);
    assert forall|k: int, t: int| 0 <= k < j implies #[trigger] cmv(S2.E, t, k) == cmv(S.E, t, k) by { assert(S2.E.col@[k] == S.E.col@[k]); }
    assert(pivok(p2, ii + 1));
    assert(!inpiv(pivs, ii));
    assert(epiv(S2.E, p2, j + 1)) by { assert forall|k: int, t: int| 0 <= k < p2.len() && t != p2[k] implies #[trigger] cmv(S2.E, t, k) == F::szero() by { if k < j { assert(cmv(S2.E, t, k) == cmv(S.E, t, k)); } } }
    assert(einv(S2.E, p2, c2)) by { assert forall|k: int| 0 <= k < p2.len() implies F::smul(#[trigger] c2[k], cmv(S2.E, p2[k] as int, k)) == F::sone() by { if k < j { assert(c2[k] == coeff[k]); assert(cmv(S2.E, pivs[k] as int, k) == cmv(S.E, pivs[k] as int, k)); } else { assert(cmv(S2.E, ii, j) == a11); } } }
    assert forall|r: int, t: int| 0 <= t < m && (t >= i + 1 || r <= t) implies #[trigger] cmv(S2.L, r, t) == kdel::<F>(r, t) by { assert(cmv(S.L, r, t) == kdel::<F>(r, t)); if t != i { assert(S2.L.col@[t] == S.L.col@[t]); } else { assert(cmv(S2.L, r, ii) == cmv(S2.L, r, ii)); } }
    assert forall|t: int, c: int| j + 1 <= c < n && t <= i implies #[trigger] cmv(S2.E, t, c) == cmv(S.E, t, c) by { }
    assert(erest(S2.E, p2, i + 1, j + 1)) by { assert forall|t: int, c: int| j + 1 <= c < n && t < i + 1 && !inpiv(p2, t) implies #[trigger] cmv(S2.E, t, c) == F::szero() by {
        assert(p2[j] == i); assert(t != i); assert forall|k: int| 0 <= k < pivs.len() implies #[trigger] pivs[k] != t by { assert(p2[k] == pivs[k]); } assert(cmv(S.E, t, c) == F::szero()); } }
    assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies #[trigger] leup_val(A, S2, sg, j + 1, r, c) by {
        assert(leup_val(A, S, sg, j, r, c)); let y = ycol(S.E, S.U, j, c); let y2 = ycol(S2.E, S2.U, j + 1, c);
        let f = mqf(fm(S.L), y, r); let g = mqf(fm(S2.L), y2, r);
        assert forall|t: int| 0 <= t < m && t != i implies #[trigger] cmv(S2.L, r, t) == cmv(S.L, r, t) by { assert(S2.L.col@[t] == S.L.col@[t]); }
        assert(cmv(S2.L, r, ii) == F::sadd(cmv(S.L, r, ii), F::smul(iv, xin(S.E.col@[j].indval@, i + 1, m, r))));
        assert forall|t: int| r < t < m || (i < t < m && t != r) implies #[trigger] cmv(S.L, r, t) == F::szero() by { assert(cmv(S.L, r, t) == kdel::<F>(r, t)); }
        assert(cmv(S.L, r, r) == kdel::<F>(r, r)); assert(cmv(S.L, r, ii) == kdel::<F>(r, ii) );
        if c < j {
            assert forall|t: int| 0 <= t < m implies #[trigger] y2(t) == y(t) by {
                let e = mqf(fm(S.E), colf(fm(S.U), c), t); let e2 = mqf(fm(S2.E), colf(fm(S2.U), c), t);
                assert(S2.U.col@[c] == S.U.col@[c]);
                assert forall|k: int| 0 <= k < n implies #[trigger] e2(k) == e(k) by { assert(cmv(S2.U, k, c) == cmv(S.U, k, c)); if k >= j { assert(cmv(S.U, k, c) == kdel::<F>(k, c)); } else { assert(cmv(S2.E, t, k) == cmv(S.E, t, k)); } }
                fsum_ext(n, e2, e);
            }
            assert(y(ii) == F::szero()) by { assert forall|k: int| j <= k < n implies #[trigger] cmv(S.U, k, c) == F::szero() by { assert(cmv(S.U, k, c) == kdel::<F>(k, c)); } eu_val(S.E, S.U, pivs, j, c, ii); }
            assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == g(t) by { assert(y2(t) == y(t)); if t != i { assert(cmv(S2.L, r, t) == cmv(S.L, r, t)); } }
            fsum_ext(m, f, g);
        } else {
            assert forall|t: int| 0 <= t <= i implies #[trigger] y2(t) == y(t) by {
                if c == j {
                    assert forall|k: int| j + 1 <= k < n implies #[trigger] cmv(S2.U, k, j) == F::szero() by { assert(cmv(S2.U, k, j) == kdel::<F>(k, j)); }
                    eu_val(S2.E, S2.U, p2, j + 1, j, t);
                    if t == i { assert(p2[j] == t); assert(cmv(S2.U, j, j) == kdel::<F>(j, j)); assert(cmv(S2.E, ii, j) == a11); }
                    else if inpiv(pivs, t) { let k = choose|k: int| 0 <= k < pivs.len() && #[trigger] pivs[k] == t; assert(p2[k] == t); let w = cmv(S.E, t, j);
                        assert(cmv(S2.U, k, j) == F::smul(coeff[k], w)); assert(cmv(S2.E, t, k) == cmv(S.E, t, k)); let a = cmv(S.E, t, k); assert(F::smul(coeff[k], a) == F::sone());
                        F::ax_mul_comm(coeff[k], w); F::ax_mul_assoc(w, coeff[k], a); }
                    else { assert forall|k: int| 0 <= k < p2.len() implies #[trigger] p2[k] != t by { if k < j { assert(pivs[k] != t); } } assert(cmv(S.E, t, j) == F::szero()); }
                }
            }
            let s = cmv(S.E, r, j);
            if r > i {
                assert(xin(S.E.col@[j].indval@, i + 1, m, r) == s);
                let b = if c == j { F::szero() } else { cmv(S2.E, r, c) };
                if c == j {
                    assert(y2(r) == F::szero()) by { assert forall|k: int| j + 1 <= k < n implies #[trigger] cmv(S2.U, k, j) == F::szero() by { assert(cmv(S2.U, k, j) == kdel::<F>(k, j)); } eu_val(S2.E, S2.U, p2, j + 1, j, r); 
                        assert forall|k: int| 0 <= k < p2.len() implies #[trigger] p2[k] != r by { } }
                    F::ax_mul_assoc(a11, iv, s);
                } else {
                    let ec = cmv(S.E, ii, c); F::ax_mul_assoc(ec, iv, s); f_neg_mul(F::smul(ec, iv), s);
                    let v = F::smul(F::smul(ec, iv), s); f_sub_add(cmv(S.E, r, c), v); F::ax_add_comm(F::sadd(cmv(S.E, r, c), F::sneg(v)), v);
                }
                assert(y2(ii) == y(ii));
                assert(g(r) == b); assert(f(ii) == F::szero()); assert(f(r) == y(r)); assert(y(r) == cmv(S.E, r, c));
                assert(F::sadd(g(ii), b) == f(r));
                assert forall|t: int| 0 <= t < m && t != i && t != r implies #[trigger] f(t) == g(t) by { assert(cmv(S2.L, r, t) == cmv(S.L, r, t)); if t > i { assert(cmv(S.L, r, t) == F::szero()); } else { assert(y2(t) == y(t)); } }
                two_bump(m, f, g, ii, r, b);
            } else {
                assert(xin(S.E.col@[j].indval@, i + 1, m, r) == F::szero());
                assert forall|t: int| 0 <= t < m implies #[trigger] f(t) == g(t) by { if t != i { assert(cmv(S2.L, r, t) == cmv(S.L, r, t)); } if t > i { assert(cmv(S.L, r, t) == F::szero()); } else { assert(y2(t) == y(t)); } }
                fsum_ext(m, f, g);
            }
        }
    }
}
#[verifier::rlimit(40)]
pub proof fn leup_finish<F: Field>(A: CM<F>, S: SFact<F>, S2: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int, j: int)
    requires leup_inv(A, S, pivs, coeff, sg, i, j), j < A.n, i == A.m, sfwf(S2, A.m as int, A.n as int), S2.P == S.P, S2.L == S.L, ucol(S, S2.U, coeff, pivs, j),
        forall|c: int| 0 <= c < A.n && c != j ==> #[trigger] S2.E.col@[c] == S.E.col@[c], S2.E.col@[j].indval@.len() == 0
    ensures leup_inv(A, S2, pivs, coeff, sg, i, j + 1)
{
    broadcast use field_basic;
    leup_u(A, S, S2.U, pivs, coeff, sg, i, j); reveal(leup_inv);
    let m = A.m as int; let n = A.n as int;
    assert forall|k: int, t: int| 0 <= k < n && k != j implies #[trigger] cmv(S2.E, t, k) == cmv(S.E, t, k) by { assert(S2.E.col@[k] == S.E.col@[k]); }
    assert forall|t: int| #[trigger] cmv(S2.E, t, j) == F::szero() by { sval_absent(S2.E.col@[j].indval@, t); }
    assert(epiv(S2.E, pivs, j + 1)) by { assert forall|k: int, t: int| 0 <= k < pivs.len() && t != pivs[k] implies #[trigger] cmv(S2.E, t, k) == F::szero() by { assert(cmv(S2.E, t, k) == cmv(S.E, t, k)); } 
        assert forall|k: int, t: int| pivs.len() <= k < j + 1 implies #[trigger] cmv(S2.E, t, k) == F::szero() by { if k < j { assert(cmv(S.E, t, k) == F::szero()); } } }
    assert(einv(S2.E, pivs, coeff)) by { assert forall|k: int| 0 <= k < pivs.len() implies F::smul(#[trigger] coeff[k], cmv(S2.E, pivs[k] as int, k)) == F::sone() by { assert(cmv(S2.E, pivs[k] as int, k) == cmv(S.E, pivs[k] as int, k)); } }
    assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies #[trigger] leup_val(A, S2, sg, j + 1, r, c) by {
        assert(leup_val(A, S, sg, j, r, c)); let y = ycol(S.E, S.U, j, c); let y2 = ycol(S2.E, S2.U, j + 1, c);
        assert forall|t: int| 0 <= t < m implies #[trigger] y2(t) == y(t) by {
            if c < j {
                let e = mqf(fm(S.E), colf(fm(S.U), c), t); let e2 = mqf(fm(S2.E), colf(fm(S2.U), c), t);
                assert(S2.U.col@[c] == S.U.col@[c]);
                assert forall|k: int| 0 <= k < n implies #[trigger] e2(k) == e(k) by { assert(cmv(S2.U, k, c) == cmv(S.U, k, c)); if k >= j { assert(cmv(S.U, k, c) == kdel::<F>(k, c)); } else { assert(cmv(S2.E, t, k) == cmv(S.E, t, k)); } }
                fsum_ext(n, e2, e);
            } else if c == j {
                assert forall|k: int| j + 1 <= k < n implies #[trigger] cmv(S2.U, k, j) == F::szero() by { assert(cmv(S2.U, k, j) == kdel::<F>(k, j)); }
                eu_val(S2.E, S2.U, pivs, j + 1, j, t);
                if inpiv(pivs, t) { let k = choose|k: int| 0 <= k < pivs.len() && #[trigger] pivs[k] == t; let w = cmv(S.E, t, j);
                    assert(cmv(S2.U, k, j) == F::smul(coeff[k], w)); assert(cmv(S2.E, t, k) == cmv(S.E, t, k)); let a = cmv(S.E, t, k); assert(F::smul(coeff[k], a) == F::sone());
                    F::ax_mul_comm(coeff[k], w); F::ax_mul_assoc(w, coeff[k], a); }
                else { assert(cmv(S.E, t, j) == F::szero()); }
            } else { assert(cmv(S2.E, t, c) == cmv(S.E, t, c)); }
        }
        mq_ext(m, fm(S2.L), fm(S.L), y2, y, r);
    }
}
@end
@rust
// ---- the table row -> columns whose first entry at or below some row lies in that row ----
pub open spec fn frow<F: Field>(s: Seq<Nz<F>>, i0: int, k: int) -> bool { k >= i0 && sval(s, k) != F::szero() && forall|r: int| i0 <= r < k ==> #[trigger] sval(s, r) == F::szero() }
pub proof fn frow_uniq<F: Field>(s: Seq<Nz<F>>, i0: int, k: int, l: int) requires frow(s, i0, k), frow(s, i0, l) ensures k == l { if k < l { assert(sval(s, k) == F::szero()); } if l < k { assert(sval(s, l) == F::szero()); } }
// position pos of s is the first with index >= i0
pub proof fn frow_pos<F: Field>(s: Seq<Nz<F>>, m: int, i0: int, pos: int)
    requires sc(s, m), 0 <= pos <= s.len(), forall|k: int| 0 <= k < pos ==> (#[trigger] s[k]).ind < i0, forall|k: int| pos <= k < s.len() ==> (#[trigger] s[k]).ind >= i0
    ensures pos < s.len() ==> frow(s, i0, s[pos].ind as int), pos == s.len() ==> forall|r: int| r >= i0 ==> #[trigger] sval(s, r) == F::szero()
{
    if pos < s.len() { sc_some(s, m, pos); assert forall|r: int| i0 <= r < s[pos].ind implies #[trigger] sval(s, r) == F::szero() by { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).ind as int != r by { if k > pos { assert(s[pos].ind < s[k].ind); } } sval_absent(s, r); } }
    else { assert forall|r: int| r >= i0 implies #[trigger] sval(s, r) == F::szero() by { sval_absent(s, r); } }
}
pub open spec fn msame(a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>, k: usize) -> bool { a.dom().contains(k) == b.dom().contains(k) && map_vec_at(a, k) == map_vec_at(b, k) }
pub open spec fn pivadd<F: Field>(s: Seq<Nz<F>>, j: usize, i0: int, a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>) -> bool {
    &&& forall|k: usize| #[trigger] frow(s, i0, k as int) ==> b.dom().contains(k) && map_vec_at(b, k) == map_vec_at(a, k).push(j)
    &&& forall|k: usize| !frow(s, i0, k as int) ==> #[trigger] msame(a, b, k)
}
// t is s without the first occurrence of x
pub open spec fn without(s: Seq<usize>, x: usize, t: Seq<usize>) -> bool { if s.contains(x) { exists|q: int| #[trigger] is_first(s, x, q) && t == s.remove(q) } else { t == s } }
pub open spec fn is_first(s: Seq<usize>, x: usize, q: int) -> bool { 0 <= q < s.len() && s[q] == x && forall|p: int| 0 <= p < q ==> #[trigger] s[p] != x }
pub open spec fn pivdel<F: Field>(s: Seq<Nz<F>>, j: usize, i0: int, a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>) -> bool {
    &&& forall|k: usize| #[trigger] frow(s, i0, k as int) ==> b.dom().contains(k) && without(map_vec_at(a, k), j, map_vec_at(b, k))
    &&& forall|k: usize| !frow(s, i0, k as int) ==> #[trigger] msame(a, b, k)
}
pub open spec fn msame_but(a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>, k0: usize) -> bool { forall|k: usize| k != k0 ==> #[trigger] msame(a, b, k) }
pub open spec fn lists(a: Map<usize, Vec<usize>>) -> spec_fn(usize) -> Seq<usize> { |k: usize| map_vec_at(a, k) }
pub open spec fn unodup(s: Seq<usize>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] != #[trigger] s[b] }
// list k names exactly the columns c in [j, n), not in ex, whose first entry at or below row i lies in row k
#[verifier::opaque]
pub open spec fn pcols<F: Field>(pl: spec_fn(usize) -> Seq<usize>, E: Seq<SV<F>>, i: int, j: int, n: int, ex: Seq<usize>) -> bool {
    &&& forall|k: usize| k >= i ==> unodup(#[trigger] pl(k))
    &&& forall|k: usize, c: usize| k >= i && #[trigger] pl(k).contains(c) ==> j <= c < n && frow(E[c as int].indval@, i, k as int) && !ex.contains(c)
    &&& forall|k: usize, c: usize| k >= i && j <= c < n && !ex.contains(c) && #[trigger] frow(E[c as int].indval@, i, k as int) ==> pl(k).contains(c)
}
pub open spec fn mfull(a: Map<usize, Vec<usize>>, i: int) -> bool { forall|k: usize| k >= i && a.dom().contains(k) ==> (#[trigger] map_vec_at(a, k)).len() > 0 }
pub open spec fn seq_push_contains(s: Seq<usize>, x: usize) -> bool { forall|c: usize| #[trigger] s.push(x).contains(c) <==> s.contains(c) || c == x }
pub proof fn push_contains(s: Seq<usize>, x: usize) ensures seq_push_contains(s, x)
{ assert forall|c: usize| #[trigger] s.push(x).contains(c) <==> s.contains(c) || c == x by { if s.contains(c) { let k = s.index_of(c); assert(s.push(x)[k] == c); } assert(s.push(x)[s.len() as int] == x); if s.push(x).contains(c) { let k = s.push(x).index_of(c); if k < s.len() { assert(s[k] == c); } } } }
pub proof fn remove_contains(s: Seq<usize>, x: usize, t: Seq<usize>) requires unodup(s), without(s, x, t) ensures unodup(t), forall|c: usize| #[trigger] t.contains(c) <==> s.contains(c) && c != x
{
    if s.contains(x) {
        let q = choose|q: int| #[trigger] is_first(s, x, q) && t == s.remove(q);
        assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] != #[trigger] t[b] by { assert(t[a] == s[if a < q { a } else { a + 1 }]); assert(t[b] == s[if b < q { b } else { b + 1 }]); }
        assert forall|c: usize| #[trigger] t.contains(c) <==> s.contains(c) && c != x by {
            if t.contains(c) { let k = t.index_of(c); let l = if k < q { k } else { k + 1 }; assert(t[k] == s[l]); assert(s[l] != s[q]) by { if l < q { assert(s[l] != s[q]); } else { assert(s[q] != s[l]); } } }
            if s.contains(c) && c != x { let l = s.index_of(c); let k = if l < q { l } else { l - 1 }; assert(t[k] == s[l]); }
        }
    }
}
// adding column x to the table
pub open spec fn pl_add<F: Field>(s: Seq<Nz<F>>, x: usize, i: int, p: spec_fn(usize) -> Seq<usize>, q: spec_fn(usize) -> Seq<usize>) -> bool { forall|k: usize| k >= i ==> #[trigger] q(k) == if frow(s, i, k as int) { p(k).push(x) } else { p(k) } }
pub proof fn pc_add<F: Field>(p: spec_fn(usize) -> Seq<usize>, q: spec_fn(usize) -> Seq<usize>, E: Seq<SV<F>>, i: int, j: int, n: int, n2: int, ex: Seq<usize>, ex2: Seq<usize>, x: usize)
    requires pcols(p, E, i, j, n, ex), pl_add(E[x as int].indval@, x, i, p, q), j <= x < n2, n <= n2,
        ex.contains(x) || x >= n, forall|c: usize| j <= c < n2 ==> ((#[trigger] ex2.contains(c)) <==> (ex.contains(c) || c >= n) && c != x)
    ensures pcols(q, E, i, j, n2, ex2)
{
    reveal(pcols); let s = E[x as int].indval@;
    assert forall|k: usize| k >= i implies seq_push_contains(#[trigger] p(k), x) && !p(k).contains(x) by { push_contains(p(k), x); if p(k).contains(x) { assert(frow(E[x as int].indval@, i, k as int)); } }
    assert forall|k: usize| k >= i implies unodup(#[trigger] q(k)) by { assert(unodup(p(k))); if frow(s, i, k as int) { assert(!p(k).contains(x)); assert forall|u: int, v: int| 0 <= u < v < q(k).len() implies #[trigger] q(k)[u] != #[trigger] q(k)[v] by { assert(q(k)[u] == p(k)[u]); if v < p(k).len() { assert(q(k)[v] == p(k)[v]); } else { assert(p(k)[u] != x); } } } }
    assert forall|k: usize, c: usize| k >= i && #[trigger] q(k).contains(c) implies j <= c < n2 && frow(E[c as int].indval@, i, k as int) && !ex2.contains(c) by { assert(seq_push_contains(p(k), x)); if c != x { assert(p(k).contains(c)); assert(frow(E[c as int].indval@, i, k as int)); assert(!ex.contains(c)); } else { assert(!p(k).contains(x)); } }
    assert forall|k: usize, c: usize| k >= i && j <= c < n2 && !ex2.contains(c) && #[trigger] frow(E[c as int].indval@, i, k as int) implies q(k).contains(c) by { assert(seq_push_contains(p(k), x)); if c != x { assert(!ex.contains(c) && c < n); assert(p(k).contains(c)); } }
    assert(pcols(q, E, i, j, n2, ex2));
}
pub proof fn pl_of_add<F: Field>(s: Seq<Nz<F>>, x: usize, i: int, a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>) requires pivadd(s, x, i, a, b) ensures pl_add(s, x, i, lists(a), lists(b)), mfull(a, i) ==> mfull(b, i)
{
    assert forall|k: usize| k >= i implies #[trigger] lists(b)(k) == (if frow(s, i, k as int) { lists(a)(k).push(x) } else { lists(a)(k) }) by { if !frow(s, i, k as int) { assert(msame(a, b, k)); } }
    if mfull(a, i) { assert forall|k: usize| k >= i && b.dom().contains(k) implies (#[trigger] map_vec_at(b, k)).len() > 0 by { if !frow(s, i, k as int) { assert(msame(a, b, k)); } } }
}
pub proof fn pc_ext<F: Field>(p: spec_fn(usize) -> Seq<usize>, q: spec_fn(usize) -> Seq<usize>, E: Seq<SV<F>>, E2: Seq<SV<F>>, i: int, j: int, j2: int, n: int, ex: Seq<usize>, ex2: Seq<usize>)
    requires pcols(p, E, i, j, n, ex), 0 <= j <= j2, forall|k: usize| k >= i ==> #[trigger] q(k) == p(k), forall|c: usize| j2 <= c < n ==> (#[trigger] ex2.contains(c) <==> ex.contains(c)), forall|c: usize| j <= c < j2 ==> #[trigger] ex.contains(c),
        forall|c: usize| j2 <= c < n && !ex.contains(c) ==> E[c as int] == #[trigger] E2[c as int]
    ensures pcols(q, E2, i, j2, n, ex2)
{
    reveal(pcols);
    assert forall|k: usize| k >= i implies unodup(#[trigger] q(k)) by { assert(unodup(p(k))); }
    assert forall|k: usize, c: usize| k >= i && #[trigger] q(k).contains(c) implies j2 <= c < n && frow(E2[c as int].indval@, i, k as int) && !ex2.contains(c) by { assert(q(k) == p(k)); assert(p(k).contains(c)); assert(frow(E[c as int].indval@, i, k as int)); assert(!ex.contains(c)); assert(E2[c as int] == E[c as int]); }
    assert forall|k: usize, c: usize| k >= i && j2 <= c < n && !ex2.contains(c) && #[trigger] frow(E2[c as int].indval@, i, k as int) implies q(k).contains(c) by { assert(E2[c as int] == E[c as int]); assert(frow(E[c as int].indval@, i, k as int)); assert(p(k).contains(c)); assert(q(k) == p(k)); }
    assert(pcols(q, E2, i, j2, n, ex2));
}
pub proof fn pc_del<F: Field>(a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>, E: Seq<SV<F>>, i: int, j: int, n: int, x: usize)
    requires pcols(lists(a), E, i, j, n, Seq::<usize>::empty()), pivdel(E[x as int].indval@, x, i, a, b), j <= x < n
    ensures pcols(lists(b), E, i, j, n, seq![x])
{
    reveal(pcols); let s = E[x as int].indval@; let p = lists(a); let q = lists(b); let ex = seq![x];
    assert(ex[0] == x); assert(forall|c: usize| #[trigger] ex.contains(c) <==> c == x);
    assert forall|k: usize| k >= i implies unodup(#[trigger] q(k)) && forall|c: usize| #[trigger] q(k).contains(c) <==> p(k).contains(c) && c != x by {
        assert(unodup(p(k)));
        if frow(s, i, k as int) { remove_contains(p(k), x, q(k)); } else { assert(msame(a, b, k)); if p(k).contains(x) { assert(frow(E[x as int].indval@, i, k as int)); } }
    }
    assert forall|k: usize, c: usize| k >= i && #[trigger] q(k).contains(c) implies j <= c < n && frow(E[c as int].indval@, i, k as int) && !ex.contains(c) by { assert(unodup(q(k))); assert(p(k).contains(c)); }
    assert forall|k: usize, c: usize| k >= i && j <= c < n && !ex.contains(c) && #[trigger] frow(E[c as int].indval@, i, k as int) implies q(k).contains(c) by { assert(unodup(q(k))); assert(p(k).contains(c)); }
    assert(pcols(q, E, i, j, n, ex));
}
pub open spec fn tailed(p: spec_fn(usize) -> Seq<usize>, i: int) -> spec_fn(usize) -> Seq<usize> { |k: usize| if k == i { p(k).drop_first() } else { p(k) } }
pub proof fn pc_tail<F: Field>(p: spec_fn(usize) -> Seq<usize>, E: Seq<SV<F>>, i: usize, j: int, n: int, ex: Seq<usize>)
    requires pcols(p, E, i as int, j, n, ex), p(i).len() > 0
    ensures pcols(tailed(p, i as int), E, i as int, j, n, ex.push(p(i)[0]))
{
    reveal(pcols); let q = tailed(p, i as int); let x = p(i)[0]; let ex2 = ex.push(x); let d = p(i); push_contains(ex, x);
    assert(d.contains(x)); assert(unodup(d)); assert(frow(E[x as int].indval@, i as int, i as int));
    assert forall|c: usize| #[trigger] d.drop_first().contains(c) <==> d.contains(c) && c != x by {
        if d.drop_first().contains(c) { let k = d.drop_first().index_of(c); assert(d.drop_first()[k] == d[k + 1]); assert(d[0] != d[k + 1]); }
        if d.contains(c) && c != x { let k = d.index_of(c); assert(d.drop_first()[k - 1] == d[k]); }
    }
    assert forall|k: usize| k >= i implies unodup(#[trigger] q(k)) by { assert(unodup(p(k))); if k == i { assert forall|a: int, b: int| 0 <= a < b < q(k).len() implies #[trigger] q(k)[a] != #[trigger] q(k)[b] by { assert(q(k)[a] == d[a + 1]); assert(q(k)[b] == d[b + 1]); assert(d[a + 1] != d[b + 1]); } } }
    assert forall|k: usize, c: usize| k >= i && #[trigger] q(k).contains(c) implies j <= c < n && frow(E[c as int].indval@, i as int, k as int) && !ex2.contains(c) by { assert(p(k).contains(c)); assert(frow(E[c as int].indval@, i as int, k as int)); if c == x { frow_uniq(E[x as int].indval@, i as int, i as int, k as int); } }
    assert forall|k: usize, c: usize| k >= i && j <= c < n && !ex2.contains(c) && #[trigger] frow(E[c as int].indval@, i as int, k as int) implies q(k).contains(c) by { assert(!ex.contains(c)); assert(p(k).contains(c)); }
    assert(pcols(q, E, i as int, j, n, ex2));
}
// below row i, the columns with an entry in row i leave the table
pub proof fn pc_next<F: Field>(p: spec_fn(usize) -> Seq<usize>, q: spec_fn(usize) -> Seq<usize>, E: Seq<SV<F>>, i: usize, j: int, n: int)
    requires pcols(p, E, i as int, j, n, Seq::<usize>::empty()), forall|k: usize| k >= i + 1 ==> #[trigger] q(k) == p(k), 0 <= j
    ensures pcols(q, E, i + 1, j, n, p(i)), forall|c: usize| j <= c < n ==> (#[trigger] p(i).contains(c) <==> sval(E[c as int].indval@, i as int) != F::szero()), forall|c: usize| #[trigger] p(i).contains(c) ==> j <= c < n, unodup(p(i))
{
    reveal(pcols); let ex = p(i);
    assert(unodup(p(i)));
    assert forall|c: usize| j <= c < n implies (#[trigger] p(i).contains(c) <==> sval(E[c as int].indval@, i as int) != F::szero()) by { if sval(E[c as int].indval@, i as int) != F::szero() { assert(frow(E[c as int].indval@, i as int, i as int)); } }
    assert forall|k: usize| k >= i + 1 implies unodup(#[trigger] q(k)) by { assert(unodup(p(k))); }
    assert forall|k: usize, c: usize| k >= i + 1 && #[trigger] q(k).contains(c) implies j <= c < n && frow(E[c as int].indval@, i + 1, k as int) && !ex.contains(c) by { assert(p(k).contains(c)); assert(frow(E[c as int].indval@, i as int, k as int)); assert(sval(E[c as int].indval@, i as int) == F::szero()); }
    assert forall|k: usize, c: usize| k >= i + 1 && j <= c < n && !ex.contains(c) && #[trigger] frow(E[c as int].indval@, i + 1, k as int) implies q(k).contains(c) by { 
        assert(sval(E[c as int].indval@, i as int) == F::szero()); assert(frow(E[c as int].indval@, i as int, k as int)) by { assert forall|r: int| i <= r < k implies #[trigger] sval(E[c as int].indval@, r) == F::szero() by { if r > i { } } } assert(p(k).contains(c)); }
    assert(pcols(q, E, i + 1, j, n, ex));
}
pub proof fn pc_get<F: Field>(p: spec_fn(usize) -> Seq<usize>, E: Seq<SV<F>>, i: int, j: int, n: int, ex: Seq<usize>, k: usize, c: usize)
    requires pcols(p, E, i, j, n, ex), k >= i, p(k).contains(c) ensures j <= c < n, frow(E[c as int].indval@, i, k as int), !ex.contains(c)
{ reveal(pcols); }
pub proof fn pc_empty<F: Field>(a: Map<usize, Vec<usize>>, E: Seq<SV<F>>, n: int) requires a == Map::<usize, Vec<usize>>::empty() ensures pcols(lists(a), E, 0, 0, 0, Seq::<usize>::empty()), mfull(a, 0) { reveal(pcols); }
@end
@fn update_pivot(CM<F>, &mut CppMap<usize, Vec<usize>>, usize, usize) as update_pivot
@prop P07
@requires
  cmwf(*A), j < A.n
@ensures
  pivadd(A.col@[j as int].indval@, j, i0 as int, old(p2c)@, final(p2c)@)
@at entry
  let ghost o = p2c@;
  let ghost s = A.col@[j as int].indval@;
@at before if 0
  proof { frow_pos(s, A.m as int, i0 as int, piv as int); if piv < s.len() { sc_some(s, A.m as int, piv as int); } }
@at exit
  proof {
      if piv < s.len() {
          let kk = s[piv as int].ind; assert(frow(s, i0 as int, kk as int));
          assert(forall|k: usize| k != kk ==> map_vec_at(p2c@, k) == map_vec_at(o, k));
          assert forall|k: usize| #[trigger] frow(s, i0 as int, k as int) implies p2c@.dom().contains(k) && map_vec_at(p2c@, k) == map_vec_at(o, k).push(j) by { frow_uniq(s, i0 as int, k as int, kk as int); }
          assert forall|k: usize| !frow(s, i0 as int, k as int) implies #[trigger] msame(o, p2c@, k) by { if k == kk { assert(frow(s, i0 as int, k as int)); } else { assert(msame(o, p2c@, k)); } assert(k != kk); }
      }
  }
@fn delete_pivot(CM<F>, &mut CppMap<usize, Vec<usize>>, usize, usize) as delete_pivot
@prop P07
@requires
  cmwf(*A), j < A.n
@ensures
  pivdel(A.col@[j as int].indval@, j, i0 as int, old(p2c)@, final(p2c)@)
@at entry
  let ghost o = p2c@;
  let ghost s = A.col@[j as int].indval@;
  let ghost mut om1 = p2c@;
@at before if 0
  proof { frow_pos(s, A.m as int, i0 as int, piv as int); if piv < s.len() { sc_some(s, A.m as int, piv as int); } }
@loop 0
  invariant_except_break it <= map_vec_at(o, s[piv as int].ind).len(), forall|p: int| 0 <= p < it ==> #[trigger] map_vec_at(o, s[piv as int].ind)[p] != j, map_vec_at(p2c@, s[piv as int].ind) == map_vec_at(o, s[piv as int].ind), msame_but(o, p2c@, mapk0), om1 == p2c@
  invariant piv < s.len(), s == A.col@[j as int].indval@, mapk0 == s[piv as int].ind, index__1 == j, j < A.n, cmwf(*A)
  ensures msame_but(o, p2c@, mapk0), mapk0 == s[piv as int].ind, p2c@.dom().contains(mapk0), without(map_vec_at(o, mapk0), j, map_vec_at(p2c@, mapk0))
  decreases map_vec_at(o, s[piv as int].ind).len() - it
@at loop 0 after
  proof { assert forall|k: usize| k != mapk0 implies #[trigger] msame(o, p2c@, k) by { assert(msame(o, om1, k)); } }
@at loop 0 end
  proof { om1 = p2c@; }
@at before erase 0
  let ghost om = p2c@;
@at after erase 0
  proof { let l = map_vec_at(o, mapk0); assert(is_first(l, j, it as int)); assert(l[it as int] == j); assert(l.contains(j)); assert(map_vec_at(p2c@, mapk0) =~= l.remove(it as int)); 
      assert forall|k: usize| k != mapk0 implies #[trigger] msame(o, p2c@, k) by { assert(msame(o, om, k)); } }
@at exit
  proof {
      if piv < s.len() {
          let kk = s[piv as int].ind; assert(frow(s, i0 as int, kk as int));
          assert forall|k: usize| k != kk implies #[trigger] msame(o, p2c@, k) by { }
          assert forall|k: usize| #[trigger] frow(s, i0 as int, k as int) implies p2c@.dom().contains(k) && without(map_vec_at(o, k), j, map_vec_at(p2c@, k)) by { frow_uniq(s, i0 as int, k as int, kk as int); }
          assert forall|k: usize| !frow(s, i0 as int, k as int) implies #[trigger] msame(o, p2c@, k) by { if k == kk { assert(frow(s, i0 as int, k as int)); } else { assert(msame(o, p2c@, k)); } assert(k != kk); }
      }
  }
@fn get_pivots(CM<F>) as get_pivots
@prop P07
@requires
  cmwf(*A)
@ensures
  pcols(lists(ret@), A.col@, 0, 0, A.n as int, Seq::<usize>::empty()), mfull(ret@, 0)
@loop 0
  invariant 0 <= j <= A.n, cmwf(*A), pcols(lists(piv2cols@), A.col@, 0, 0, j as int, Seq::<usize>::empty()), mfull(piv2cols@, 0)
  decreases A.n - j
@at loop 0 before
  proof { pc_empty(piv2cols@, A.col@, 0); }
@at before update_pivot 0
  let ghost o = piv2cols@;
@at after update_pivot 0
  proof { pl_of_add(A.col@[j as int].indval@, j, 0, o, piv2cols@); pc_add(lists(o), lists(piv2cols@), A.col@, 0, 0, j as int, j + 1, Seq::<usize>::empty(), Seq::<usize>::empty(), j); }
@rust
pub proof fn leup_rowzero<F: Field>(p: spec_fn(usize) -> Seq<usize>, E: CM<F>, i: usize, j: int)
    requires pcols(p, E.col@, i as int, j, E.n as int, Seq::<usize>::empty()), p(i).len() == 0, 0 <= j
    ensures forall|c: int| j <= c < E.n ==> #[trigger] cmv(E, i as int, c) == F::szero(), pcols(p, E.col@, i + 1, j, E.n as int, Seq::<usize>::empty())
{
    pc_next(p, p, E.col@, i, j, E.n as int); assert(p(i) =~= Seq::<usize>::empty());
    assert forall|c: int| j <= c < E.n implies #[trigger] cmv(E, i as int, c) == F::szero() by { assert(!p(i).contains(c as usize)); }
}
// the pivot column is in place: the other columns with an entry in row i are the rest of list i
pub open spec fn leup_stage<F: Field>(a: Map<usize, Vec<usize>>, E: CM<F>, i: int, j: int) -> bool { pcols(tailed(lists(a), i), E.col@, i, j + 1, E.n as int, Seq::<usize>::empty()) && mfull(a, i) }
pub proof fn stage_same<F: Field>(a: Map<usize, Vec<usize>>, E: CM<F>, i: usize, j: usize)
    requires pcols(lists(a), E.col@, i as int, j as int, E.n as int, Seq::<usize>::empty()), mfull(a, i as int), map_vec_at(a, i).len() > 0, map_vec_at(a, i)[0] == j
    ensures leup_stage(a, E, i as int, j as int)
{
    let e = Seq::<usize>::empty(); pc_tail(lists(a), E.col@, i, j as int, E.n as int, e); push_contains(e, j);
    pc_ext(tailed(lists(a), i as int), tailed(lists(a), i as int), E.col@, E.col@, i as int, j as int, j + 1, E.n as int, e.push(j), e);
}
pub proof fn stage_swap<F: Field>(a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>, d: Map<usize, Vec<usize>>, E: CM<F>, E2: CM<F>, i: usize, j: usize, j2: usize)
    requires pcols(lists(a), E.col@, i as int, j as int, E.n as int, Seq::<usize>::empty()), mfull(a, i as int), map_vec_at(a, i).len() > 0, map_vec_at(a, i)[0] == j2, j < j2 < E.n, E2.n == E.n,
        pivdel(E.col@[j as int].indval@, j, i as int, a, b), pivadd(E2.col@[j2 as int].indval@, j2, i as int, b, d), E2.col@[j2 as int] == E.col@[j as int],
        forall|c: int| 0 <= c < E.n && c != j && c != j2 ==> #[trigger] E2.col@[c] == E.col@[c]
    ensures leup_stage(d, E2, i as int, j as int), a.dom().contains(i) ==> d.dom().contains(i)
{
    let n = E.n as int; let e = Seq::<usize>::empty(); let s = E.col@[j as int].indval@; let ii = i as int;
    let la = lists(a); let lb = lists(b); let ld = lists(d);
    pc_del(a, b, E.col@, ii, j as int, n, j);
    assert(map_vec_at(b, i).len() > 0 && map_vec_at(b, i)[0] == j2) by {
        let l = map_vec_at(a, i);
        if frow(s, ii, ii) { if l.contains(j) { let q = choose|q: int| #[trigger] is_first(l, j, q) && map_vec_at(b, i) == l.remove(q); assert(q > 0); assert(l.remove(q)[0] == l[0]); } } else { assert(msame(a, b, i)); }
    }
    let x1 = seq![j]; let x2 = x1.push(j2); push_contains(x1, j2); assert(forall|c: usize| #[trigger] x1.contains(c) <==> c == j) by { assert(x1[0] == j); }
    pc_tail(lb, E.col@, i, j as int, n, x1); 
    let t = tailed(lb, ii); let x3 = seq![j2]; assert(forall|c: usize| #[trigger] x3.contains(c) <==> c == j2) by { assert(x3[0] == j2); }
    pc_ext(t, t, E.col@, E2.col@, ii, j as int, j + 1, n, x2, x3);
    pl_of_add(s, j2, ii, b, d);
    let td = tailed(ld, ii);
    assert forall|k: usize| k >= ii implies #[trigger] td(k) == (if frow(s, ii, k as int) { t(k).push(j2) } else { t(k) }) by {
        assert(ld(k) == if frow(s, ii, k as int) { lb(k).push(j2) } else { lb(k) });
        if k == i && frow(s, ii, ii) { assert(lb(k).push(j2).drop_first() =~= lb(k).drop_first().push(j2)); }
    }
    pc_add(t, td, E2.col@, ii, j + 1, n, n, x3, e, j2);
    if a.dom().contains(i) { assert(b.dom().contains(i)) by { if !frow(s, ii, ii) { assert(msame(a, b, i)); } } assert(d.dom().contains(i)) by { if !frow(s, ii, ii) { assert(msame(b, d, i)); } } }
    assert forall|k: usize| k >= i && d.dom().contains(k) implies (#[trigger] map_vec_at(d, k)).len() > 0 by { assert(ld(k) == if frow(s, ii, k as int) { lb(k).push(j2) } else { lb(k) }); if !frow(s, ii, k as int) { assert(msame(b, d, k)); assert(msame(a, b, k)); } }
}
pub open spec fn elim_to<F: Field>(E1: CM<F>, E: CM<F>, i: int, j: int, a11: F, c: int) -> bool { forall|r: int| #[trigger] cmv(E, r, c) == F::sadd(cmv(E1, r, c), F::smul(F::sneg(F::smul(cmv(E1, i, c), F::sinv(a11))), xin(E1.col@[j].indval@, i + 1, E1.m as int, r))) }
// columns done so far: those in T[0..q); T lists the columns right of j with an entry in row i
#[verifier::opaque]
pub open spec fn schur<F: Field>(E1: CM<F>, E: CM<F>, i: int, j: int, a11: F, T: Seq<usize>, q: int) -> bool {
    &&& cmwf(E1) && cmwf(E) && E.m == E1.m && E.n == E1.n && 0 <= q <= T.len() && unodup(T) && 0 <= j < E.n && (forall|c: usize| #[trigger] T.contains(c) ==> j < c < E.n)
    &&& forall|c: usize| #[trigger] T.take(q).contains(c) ==> elim_to(E1, E, i, j, a11, c as int)
    &&& forall|c: int| 0 <= c < E.n && !T.take(q).contains(c as usize) ==> #[trigger] E.col@[c] == E1.col@[c]
}
pub proof fn schur_start<F: Field>(E1: CM<F>, i: int, j: int, a11: F, T: Seq<usize>)
    requires cmwf(E1), unodup(T), 0 <= j < E1.n, forall|c: usize| #[trigger] T.contains(c) ==> j < c < E1.n
    ensures schur(E1, E1, i, j, a11, T, 0)
{ reveal(schur); assert(T.take(0) =~= Seq::<usize>::empty()); }
pub proof fn schur_at<F: Field>(E1: CM<F>, E: CM<F>, i: int, j: int, a11: F, T: Seq<usize>, q: int)
    requires schur(E1, E, i, j, a11, T, q)
    ensures cmwf(E), E.n == E1.n, E.m == E1.m, E.col@[j] == E1.col@[j], q < T.len() ==> j < T[q] < E.n && E.col@[T[q] as int] == E1.col@[T[q] as int] && T.contains(T[q]), 0 <= q <= T.len()
{ reveal(schur); if T.take(q).contains(j as usize) { let k = T.take(q).index_of(j as usize); assert(T[k] == j); assert(T.contains(j as usize)); }
  if q < T.len() { assert(T.contains(T[q])); let x = T[q]; if T.take(q).contains(x) { let k = T.take(q).index_of(x); assert(T[k] == x); } } }
pub proof fn schur_step<F: Field>(E1: CM<F>, E: CM<F>, E2: CM<F>, i: int, j: int, a11: F, T: Seq<usize>, q: int)
    requires schur(E1, E, i, j, a11, T, q), q < T.len(), cmwf(E2), E2.m == E.m, E2.n == E.n, elim_to(E1, E2, i, j, a11, T[q] as int), forall|c: int| 0 <= c < E.n && c != T[q] ==> #[trigger] E2.col@[c] == E.col@[c]
    ensures schur(E1, E2, i, j, a11, T, q + 1)
{
    reveal(schur); let x = T[q]; assert(T.take(q + 1) =~= T.take(q).push(x)); push_contains(T.take(q), x); assert(seq_push_contains(T.take(q), x));
    assert(T.contains(x));
    assert forall|c: usize| #[trigger] T.take(q + 1).contains(c) implies elim_to(E1, E2, i, j, a11, c as int) by { if c != x { assert(T.take(q).contains(c)); let k = T.take(q).index_of(c); assert(T[k] == c); assert(T.contains(c)); assert(elim_to(E1, E, i, j, a11, c as int)); assert(E2.col@[c as int] == E.col@[c as int]); 
        assert forall|r: int| #[trigger] cmv(E2, r, c as int) == F::sadd(cmv(E1, r, c as int), F::smul(F::sneg(F::smul(cmv(E1, i, c as int), F::sinv(a11))), xin(E1.col@[j].indval@, i + 1, E1.m as int, r))) by { assert(cmv(E, r, c as int) == cmv(E2, r, c as int)); } } }
    assert forall|c: int| 0 <= c < E.n && !T.take(q + 1).contains(c as usize) implies #[trigger] E2.col@[c] == E1.col@[c] by { assert(!T.take(q).contains(c as usize)); assert(c as usize != x); }
}
pub proof fn schur_done<F: Field>(E1: CM<F>, E: CM<F>, i: int, j: int, a11: F, T: Seq<usize>)
    requires schur(E1, E, i, j, a11, T, T.len() as int), forall|c: usize| j < c < E1.n ==> (#[trigger] T.contains(c) <==> sval(E1.col@[c as int].indval@, i) != F::szero())
    ensures cmwf(E), E.m == E1.m, E.n == E1.n, forall|c: int| 0 <= c <= j ==> #[trigger] E.col@[c] == E1.col@[c],
        forall|r: int, c: int| j < c < E.n ==> #[trigger] cmv(E, r, c) == F::sadd(cmv(E1, r, c), F::smul(F::sneg(F::smul(cmv(E1, i, c), F::sinv(a11))), xin(E1.col@[j].indval@, i + 1, E1.m as int, r)))
{
    broadcast use field_basic; reveal(schur); assert(T.take(T.len() as int) =~= T); f_neg_zero::<F>();
    assert forall|c: int| 0 <= c <= j implies #[trigger] E.col@[c] == E1.col@[c] by { }
    assert forall|r: int, c: int| j < c < E.n implies #[trigger] cmv(E, r, c) == F::sadd(cmv(E1, r, c), F::smul(F::sneg(F::smul(cmv(E1, i, c), F::sinv(a11))), xin(E1.col@[j].indval@, i + 1, E1.m as int, r))) by {
        if T.contains(c as usize) { assert(elim_to(E1, E, i, j, a11, c)); } else { assert(E.col@[c] == E1.col@[c]); assert(cmv(E1, i, c) == F::szero()); }
    }
}
pub proof fn schur_col<F: Field>(E1: CM<F>, E: CM<F>, E2: CM<F>, i: int, j: int, a11: F, T: Seq<usize>, q: int)
    requires schur(E1, E, i, j, a11, T, q), q < T.len(), E2.m == E.m, E2.n == E.n, E2.col@.len() == E.n, forall|c: int| 0 <= c < E.n && c != T[q] ==> #[trigger] E2.col@[c] == E.col@[c],
        ssorted(E2.col@[T[q] as int].indval@), snz(E2.col@[T[q] as int].indval@),
        forall|r: int| #[trigger] sval(E2.col@[T[q] as int].indval@, r) == F::sadd(sval(E.col@[T[q] as int].indval@, r), F::smul(F::sneg(F::smul(cmv(E, i, T[q] as int), F::sinv(a11))), xin(E.col@[j].indval@, i + 1, E.m as int, r)))
    ensures cmwf(E2), schur(E1, E2, i, j, a11, T, q + 1)
{
    broadcast use field_basic;
    schur_at(E1, E, i, j, a11, T, q); let x = T[q] as int; let s = E2.col@[x].indval@;
    sval_out(E.col@[x].indval@, E.m as int);
    assert forall|r: int| r >= E.m implies #[trigger] sval(s, r) == F::szero() by { }
    sc_of(s, E.m as int);
    assert forall|c: int| 0 <= c < E2.n implies sc((#[trigger] E2.col@[c]).indval@, E2.m as int) by { if c != x { assert(E2.col@[c] == E.col@[c]); } }
    assert forall|r: int| #[trigger] cmv(E2, r, x) == F::sadd(cmv(E1, r, x), F::smul(F::sneg(F::smul(cmv(E1, i, x), F::sinv(a11))), xin(E1.col@[j].indval@, i + 1, E1.m as int, r))) by { assert(cmv(E2, r, x) == sval(s, r)); assert(cmv(E, i, x) == cmv(E1, i, x)); }
    schur_step(E1, E, E2, i, j, a11, T, q);
}
pub proof fn drop_first_contains(s: Seq<usize>) requires unodup(s), s.len() > 0 ensures forall|c: usize| #[trigger] s.drop_first().contains(c) <==> s.contains(c) && c != s[0]
{
    assert forall|c: usize| #[trigger] s.drop_first().contains(c) <==> s.contains(c) && c != s[0] by {
        if s.drop_first().contains(c) { let k = s.drop_first().index_of(c); assert(s.drop_first()[k] == s[k + 1]); assert(s[0] != s[k + 1]); }
        if s.contains(c) && c != s[0] { let k = s.index_of(c); assert(s.drop_first()[k - 1] == s[k]); }
    }
}
// the table while the columns T[q..) wait for their elimination
pub proof fn table_step<F: Field>(a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>, E: CM<F>, E2: CM<F>, i: int, j: int, T: Seq<usize>, q: int)
    requires pcols(lists(a), E.col@, i, j, E.n as int, T.skip(q)), mfull(a, i), 0 <= q < T.len(), unodup(T), j <= T[q] < E.n, 0 <= j, E2.n == E.n, pivadd(E2.col@[T[q] as int].indval@, T[q], i, a, b), forall|c: int| 0 <= c < E.n && c != T[q] ==> #[trigger] E2.col@[c] == E.col@[c]
    ensures pcols(lists(b), E2.col@, i, j, E.n as int, T.skip(q + 1)), mfull(b, i)
{
    let ex = T.skip(q); let x = T[q]; assert(ex[0] == x); assert(ex.contains(x)); assert(T.skip(q + 1) =~= ex.drop_first());
    assert(unodup(ex)) by { assert forall|u: int, v: int| 0 <= u < v < ex.len() implies #[trigger] ex[u] != #[trigger] ex[v] by { assert(ex[u] == T[q + u]); assert(ex[v] == T[q + v]); assert(T[q + u] != T[q + v]); } }
    drop_first_contains(ex);
    pc_ext(lists(a), lists(a), E.col@, E2.col@, i, j, j, E.n as int, ex, ex);
    pl_of_add(E2.col@[x as int].indval@, x, i, a, b);
    pc_add(lists(a), lists(b), E2.col@, i, j, E.n as int, E.n as int, ex, T.skip(q + 1), x);
}
pub open spec fn is_identn<F: Field>(A: CM<F>, n: int) -> bool { cmwf(A) && A.m == n && A.n == n && forall|r: int, c: int| 0 <= c < n ==> #[trigger] cmv(A, r, c) == kdel::<F>(r, c) }
pub proof fn single_val<F: Field>(s: Seq<Nz<F>>) requires s.len() == 1 ensures forall|r: int| #[trigger] sval(s, r) == if r == s[0].ind { s[0].val } else { F::szero() }
{ assert forall|r: int| #[trigger] sval(s, r) == (if r == s[0].ind { s[0].val } else { F::szero() }) by { if r == s[0].ind { sval_at_d(s, 0); } else { sval_absent(s, r); } } }
// the work on one pivot: E3 is E after the elimination, S2 the state after L and the pivot column are set
pub proof fn leup_block<F: Field>(A: CM<F>, S: SFact<F>, S2: SFact<F>, E3: CM<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: usize, j: int, a11: F)
    requires leup_inv(A, S, pivs, coeff, sg, i as int, j), pivs.len() == j, i < A.m, j < A.n, a11 == cmv(S.E, i as int, j), a11 != F::szero(),
        S2.P == S.P, S2.U.m == S.U.m, S2.U.n == S.U.n, S2.L.m == S.L.m, S2.L.n == S.L.n, S2.E.m == S.E.m, S2.E.n == S.E.n, S2.E.col@.len() == S.E.n, S2.U.col@.len() == S.U.n, S2.L.col@.len() == S.L.n,
        // U
        forall|c: int| 0 <= c < S.U.n && c != j ==> #[trigger] S2.U.col@[c] == S.U.col@[c], ssorted(S2.U.col@[j].indval@), snz(S2.U.col@[j].indval@),
        forall|k: int| #[trigger] sval(S2.U.col@[j].indval@, k) == ctarget(S.U.col@[j].indval@, S.E.col@[j].indval@, coeff, pivs, k),
        // E
        cmwf(E3), E3.m == S.E.m, E3.n == S.E.n, forall|c: int| 0 <= c <= j ==> #[trigger] E3.col@[c] == S.E.col@[c],
        forall|r: int, c: int| j < c < S.E.n ==> #[trigger] cmv(E3, r, c) == F::sadd(cmv(S.E, r, c), F::smul(F::sneg(F::smul(cmv(S.E, i as int, c), F::sinv(a11))), xin(S.E.col@[j].indval@, i + 1, S.E.m as int, r))),
        forall|c: int| 0 <= c < S.E.n && c != j ==> #[trigger] S2.E.col@[c] == E3.col@[c], S2.E.col@[j].indval@.len() == 1, S2.E.col@[j].indval@[0].ind == i, S2.E.col@[j].indval@[0].val == a11,
        // L
        forall|t: int| 0 <= t < S.L.n && t != i ==> #[trigger] S2.L.col@[t] == S.L.col@[t], ssorted(S2.L.col@[i as int].indval@), snz(S2.L.col@[i as int].indval@),
        forall|r: int| #[trigger] sval(S2.L.col@[i as int].indval@, r) == F::sadd(sval(S.L.col@[i as int].indval@, r), F::smul(F::sinv(a11), xin(S.E.col@[j].indval@, i + 1, A.m as int, r))),
    ensures leup_inv(A, S2, pivs.push(i), coeff.push(F::sinv(a11)), sg, i + 1, j + 1)
{
    broadcast use field_basic;
    leup_facts(A, S, pivs, coeff, sg, i as int, j); let ii = i as int;
    ucol_of(S, S2.U, coeff, pivs, j);
    let e = S2.E.col@[j].indval@; single_val(e);
    assert(sc(e, A.m as int));
    assert(cmwf(S2.E)) by { assert forall|c: int| 0 <= c < S2.E.n implies sc((#[trigger] S2.E.col@[c]).indval@, S2.E.m as int) by { if c != j { assert(S2.E.col@[c] == E3.col@[c]); } } }
    let l = S2.L.col@[ii].indval@; sval_out(S.L.col@[ii].indval@, A.m as int);
    sc_of(l, A.m as int);
    assert(cmwf(S2.L)) by { assert forall|c: int| 0 <= c < S2.L.n implies sc((#[trigger] S2.L.col@[c]).indval@, S2.L.m as int) by { if c != ii { assert(S2.L.col@[c] == S.L.col@[c]); } } }
    assert forall|r: int| #[trigger] cmv(S2.E, r, j) == (if r == i { a11 } else { F::szero() }) by { assert(cmv(S2.E, r, j) == sval(e, r)); }
    assert forall|r: int, c: int| j < c < A.n implies #[trigger] cmv(S2.E, r, c) == F::sadd(cmv(S.E, r, c), F::smul(F::sneg(F::smul(cmv(S.E, i as int, c), F::sinv(a11))), xin(S.E.col@[j].indval@, i + 1, A.m as int, r))) by { assert(S2.E.col@[c] == E3.col@[c]); assert(cmv(S2.E, r, c) == cmv(E3, r, c)); }
    assert forall|c: int| 0 <= c < j implies #[trigger] S2.E.col@[c] == S.E.col@[c] by { assert(S2.E.col@[c] == E3.col@[c]); assert(E3.col@[c] == S.E.col@[c]); }
    assert forall|r: int| #[trigger] cmv(S2.L, r, ii) == F::sadd(cmv(S.L, r, ii), F::smul(F::sinv(a11), xin(S.E.col@[j].indval@, i + 1, A.m as int, r))) by { assert(cmv(S2.L, r, ii) == sval(l, r)); }
    leup_pivot(A, S, S2, pivs, coeff, sg, i, j, a11);
}
pub proof fn ucol_of<F: Field>(S: SFact<F>, U2: CM<F>, coeff: Seq<F>, pivs: Seq<usize>, j: int)
    requires cmwf(S.U), S.U.m == S.U.n, 0 <= j < S.U.n, pivs.len() <= S.U.m, U2.m == S.U.m, U2.n == S.U.n, U2.col@.len() == U2.n, forall|c: int| 0 <= c < S.U.n && c != j ==> #[trigger] U2.col@[c] == S.U.col@[c], ssorted(U2.col@[j].indval@), snz(U2.col@[j].indval@),
        forall|k: int| #[trigger] sval(U2.col@[j].indval@, k) == ctarget(S.U.col@[j].indval@, S.E.col@[j].indval@, coeff, pivs, k),
    ensures ucol(S, U2, coeff, pivs, j)
{
    broadcast use field_basic;
    let s = U2.col@[j].indval@; sval_out(S.U.col@[j].indval@, S.U.m as int); sc_of(s, S.U.m as int);
    assert(cmwf(U2)) by { assert forall|c: int| 0 <= c < U2.n implies sc((#[trigger] U2.col@[c]).indval@, U2.m as int) by { if c != j { assert(U2.col@[c] == S.U.col@[c]); } } }
    assert forall|k: int| #[trigger] cmv(U2, k, j) == ctarget(S.U.col@[j].indval@, S.E.col@[j].indval@, coeff, pivs, k) by { assert(cmv(U2, k, j) == sval(s, k)); }
}
pub proof fn leup_clear<F: Field>(A: CM<F>, S: SFact<F>, S2: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int, j: int)
    requires leup_inv(A, S, pivs, coeff, sg, i, j), j < A.n, i == A.m, S2.P == S.P, S2.L == S.L, S2.U.m == S.U.m, S2.U.n == S.U.n, S2.E.m == S.E.m, S2.E.n == S.E.n, S2.E.col@.len() == S.E.n, S2.U.col@.len() == S.U.n,
        forall|c: int| 0 <= c < S.U.n && c != j ==> #[trigger] S2.U.col@[c] == S.U.col@[c], ssorted(S2.U.col@[j].indval@), snz(S2.U.col@[j].indval@),
        forall|k: int| #[trigger] sval(S2.U.col@[j].indval@, k) == ctarget(S.U.col@[j].indval@, S.E.col@[j].indval@, coeff, pivs, k),
        forall|c: int| 0 <= c < A.n && c != j ==> #[trigger] S2.E.col@[c] == S.E.col@[c], S2.E.col@[j].indval@.len() == 0
    ensures leup_inv(A, S2, pivs, coeff, sg, i, j + 1)
{
    leup_facts(A, S, pivs, coeff, sg, i, j); ucol_of(S, S2.U, coeff, pivs, j);
    assert(cmwf(S2.E)) by { assert forall|c: int| 0 <= c < S2.E.n implies sc((#[trigger] S2.E.col@[c]).indval@, S2.E.m as int) by { if c != j { assert(S2.E.col@[c] == S.E.col@[c]); } } }
    leup_finish(A, S, S2, pivs, coeff, sg, i, j);
}
// the table once list i is gone and the next column is done
pub proof fn pc_erase<F: Field>(a: Map<usize, Vec<usize>>, b: Map<usize, Vec<usize>>, E: CM<F>, E2: CM<F>, i: usize, j: int)
    requires pcols(lists(a), E.col@, i + 1, j, E.n as int, Seq::<usize>::empty()), mfull(a, i + 1), b == a.remove(i), E2.n == E.n, 0 <= j, forall|c: int| j <= c < E.n ==> #[trigger] E2.col@[c] == E.col@[c]
    ensures pcols(lists(b), E2.col@, i + 1, j, E2.n as int, Seq::<usize>::empty()), mfull(b, i + 1)
{
    let e = Seq::<usize>::empty();
    assert forall|k: usize| k >= i + 1 implies #[trigger] lists(b)(k) == lists(a)(k) by { }
    pc_ext(lists(a), lists(b), E.col@, E2.col@, i + 1, j, j, E.n as int, e, e);
    assert forall|k: usize| k >= i + 1 && b.dom().contains(k) implies (#[trigger] map_vec_at(b, k)).len() > 0 by { assert(map_vec_at(a, k) == map_vec_at(b, k)); }
}
// ---- the result ----
pub open spec fn is_pmat<F: Field>(P: CM<F>) -> bool { exists|sg: Seq<int>| #[trigger] injperm(sg, P.n as int) && permcols(P, sg) }
pub open spec fn prod4<F: Field>(k1: int, A1: CM<F>, k2: int, A2: CM<F>, k3: int, A3: CM<F>, A4: CM<F>) -> spec_fn(int, int) -> F { mm(k3, mm(k2, mm(k1, fm(A1), fm(A2)), fm(A3)), fm(A4)) }
pub open spec fn leup_of<F: Field>(A: CM<F>, S: SFact<F>) -> bool {
    &&& sfwf(S, A.m as int, A.n as int) && lshape(S.L, A.m as int) && ushape(S.U, A.n as int) && is_el(S.E) && is_pmat(S.P)
    &&& forall|r: int, c: int| 0 <= r < A.m && 0 <= c < A.n ==> #[trigger] cmv(A, r, c) == prod4(A.m as int, S.L, A.n as int, S.E, A.n as int, S.U, S.P)(r, c)
}
pub proof fn epiv_el<F: Field>(A: CM<F>, S: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int) 
    requires leup_inv(A, S, pivs, coeff, sg, i, A.n as int) ensures el_form(S.E, pivs.len() as int)
{
    broadcast use field_basic;
    reveal(leup_inv); let E = S.E;
    assert forall|k: int| 0 <= k < pivs.len() implies (#[trigger] E.col@[k]).indval@.len() == 1 && E.col@[k].indval@[0].ind == pivs[k] by {
        let s = E.col@[k].indval@; let t = pivs[k] as int;
        assert(F::smul(coeff[k], cmv(E, t, k)) == F::sone()); 
        if cmv(E, t, k) == F::szero() { F::ax_one_ne_zero(); }
        let q = sval_find(s, t);
        if s.len() > 1 { let o = if q == 0 { 1int } else { 0int }; sc_some(s, E.m as int, o); ssorted_sdist(s); assert(s[o].ind != s[q].ind); assert(cmv(E, s[o].ind as int, k) == F::szero()); }
    }
    assert forall|k: int| pivs.len() <= k < E.n implies (#[trigger] E.col@[k]).indval@.len() == 0 by { let s = E.col@[k].indval@; if s.len() > 0 { sc_some(s, E.m as int, 0); assert(cmv(E, s[0].ind as int, k) == F::szero()); } }
    assert forall|a: int, b: int| 0 <= a < b < pivs.len() implies (#[trigger] E.col@[a]).indval@[0].ind < (#[trigger] E.col@[b]).indval@[0].ind by { }
}
pub proof fn leup_done<F: Field>(A: CM<F>, S: SFact<F>, S2: SFact<F>, pivs: Seq<usize>, coeff: Seq<F>, sg: Seq<int>, i: int)
    requires leup_inv(A, S, pivs, coeff, sg, i, A.n as int), S2.L == S.L, S2.E == S.E, S2.U == S.U, cmwf(S2.P), S2.P.m == A.n, S2.P.n == A.n, forall|a: int, b: int| 0 <= a < A.n && 0 <= b < A.n ==> #[trigger] cmv(S2.P, b, a) == cmv(S.P, a, b)
    ensures leup_of(A, S2)
{
    broadcast use field_basic;
    epiv_el(A, S, pivs, coeff, sg, i); reveal(leup_inv);
    let m = A.m as int; let n = A.n as int;
    assert(lshape(S2.L, m)); assert(ushape(S2.U, n));
    let inv = Seq::new(A.n as nat, |c: int| perm_pre(sg, n, c));
    assert forall|c: int| 0 <= c < n implies 0 <= #[trigger] inv[c] < n && sg[inv[c]] == c by { perm_pre_ok(sg, n, c); }
    assert(injperm(inv, n)) by { assert forall|a: int, b: int| 0 <= a < b < n implies #[trigger] inv[a] != #[trigger] inv[b] by { } }
    assert(permcols(S2.P, inv)) by { assert forall|r: int, c: int| 0 <= c < S2.P.n implies #[trigger] cmv(S2.P, r, c) == kdel::<F>(r, inv[c]) by {
        if 0 <= r < n { assert(cmv(S2.P, r, c) == cmv(S.P, c, r)); assert(cmv(S.P, c, r) == kdel::<F>(c, sg[r])); if sg[r] == c && r != inv[c] { if r < inv[c] { assert(sg[r] != sg[inv[c]]); } else { assert(sg[inv[c]] != sg[r]); } } }
        else { sval_out(S2.P.col@[c].indval@, n); } } }
    assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies #[trigger] cmv(A, r, c) == prod4(m, S2.L, n, S2.E, n, S2.U, S2.P)(r, c) by {
        let k = inv[c]; assert(leup_val(A, S, sg, n, r, k)); 
        let leu = mm(n, mm(m, fm(S2.L), fm(S2.E)), fm(S2.U)); let f = mqf(leu, colf(fm(S2.P), c), r);
        assert forall|t: int| 0 <= t < n && t != k implies #[trigger] f(t) == F::szero() by { assert(cmv(S2.P, t, c) == kdel::<F>(t, k)); }
        assert(cmv(S2.P, k, c) == kdel::<F>(k, k));
        fsum_one(n, f, k);
        assert(f(k) == leu(r, k));
        mq_assoc(m, fm(S2.L), n, fm(S2.E), colf(fm(S2.U), k), r);
        mq_ext(m, fm(S2.L), fm(S2.L), |t: int| mq(n, fm(S2.E), colf(fm(S2.U), k), t), ycol(S.E, S.U, n, k), r);
    }
}
pub open spec fn perm_pre(sg: Seq<int>, n: int, v: int) -> int { choose|i: int| 0 <= i < n && #[trigger] sg[i] == v }
pub proof fn perm_pre_ok(sg: Seq<int>, n: int, v: int) requires injperm(sg, n), 0 <= v < n ensures 0 <= perm_pre(sg, n, v) < n, sg[perm_pre(sg, n, v)] == v { let i = perm_onto(sg, n, v); assert(sg[i] == v); }
@end
@fn LEUP_inplace(&mut SFact<F>) as leup_inplace
@prop P07
@requires
  cmwf(old(F).E), is_identn(old(F).L, old(F).E.m as int), is_identn(old(F).U, old(F).E.n as int), is_identn(old(F).P, old(F).E.n as int)
@ensures
  leup_of(old(F).E, *final(F))
@at entry
  let ghost A = F.E;
  let ghost mut sg: Seq<int> = Seq::<int>::empty();
  proof { sg = leup_init(A, *F); }
@loop 0
  invariant leup_inv(A, *F, pivs@, coeff@, sg, i as int, j as int), pivs@.len() == j, m == A.m, n == A.n, i <= m, j <= n, pcols(lists(p2c@), F.E.col@, i as int, j as int, n as int, Seq::<usize>::empty()), mfull(p2c@, i as int)
  decreases m - i
@at loop 0 begin
  proof { leup_facts(A, *F, pivs@, coeff@, sg, i as int, j as int); if map_vec_at(p2c@, i).len() == 0 { leup_rowzero(lists(p2c@), F.E, i, j as int); } }
  let ghost a0 = p2c@;
@at if 0 else begin
  proof { leup_skip(A, *F, pivs@, coeff@, sg, i as int, j as int); }
@at before if 1
  let ghost S1 = *F;
  proof { assert(p2c@ == a0); assert(lists(a0)(i).contains(j2)) by { assert(map_vec_at(a0, i)[0] == j2); } pc_get(lists(a0), F.E.col@, i as int, j as int, n as int, Seq::<usize>::empty(), i, j2); }
@at after delete_pivot 0
  let ghost a1 = p2c@;
@at if 1 then end
  proof { stage_swap(a0, a1, p2c@, S1.E, F.E, i, j, j2); sg = leup_swap(A, S1, *F, pivs@, coeff@, sg, i as int, j as int, j2 as int); }
@at after if 1
  proof { if j2 == j { stage_same(p2c@, F.E, i, j); } leup_facts(A, *F, pivs@, coeff@, sg, i as int, j as int); leup_cpre(A, *F, pivs@, coeff@, sg, i as int, j as int); }
  let ghost S = *F;
  let ghost pv0 = pivs@;
  let ghost cf0 = coeff@;
  let ghost a2 = p2c@;
  let ghost mut E3 = F.E;
  let ghost mut b3 = p2c@;
@at before push 0
  proof { assert(a11 == cmv(S.E, i as int, j as int)); }
@at loop 1 before
  let ghost T = map_vec_at(a2, i).drop_first();
  let ghost FU = F.U;
  proof {
      assert(map_vec_at(a2, i).len() > 0);
      pc_next(tailed(lists(a2), i as int), lists(a2), S.E.col@, i, j + 1, n as int);
      assert(tailed(lists(a2), i as int)(i) == T);
      schur_start(S.E, i as int, j as int, a11, T); assert(T.skip(0) =~= T);
  }
@loop 1
  invariant 1 <= jj <= T.len() + 1, mapk1 == i, p2c@.dom().contains(i), map_vec_at(p2c@, i) == map_vec_at(a2, i), schur(S.E, F.E, i as int, j as int, a11, T, jj - 1),
    pcols(lists(p2c@), F.E.col@, i + 1, j + 1, n as int, T.skip(jj - 1)), mfull(p2c@, i + 1), F.L == S.L, F.U == FU, F.P == S.P
  decreases T.len() + 1 - jj
@at loop 1 begin
  let ghost b0 = p2c@;
  let ghost EB = F.E;
  let ghost q = jj - 1;
  proof { schur_at(S.E, EB, i as int, j as int, a11, T, q); assert(map_vec_at(a2, i)[jj as int] == T[q]); }
@at before update_pivot 1
  proof { assert(p2c@ == b0); schur_col(S.E, EB, F.E, i as int, j as int, a11, T, q); }
@at after update_pivot 1
  proof { table_step(b0, p2c@, EB, F.E, i + 1, j + 1, T, q); 
      assert(map_vec_at(p2c@, i) == map_vec_at(b0, i) && p2c@.dom().contains(i)) by { assert(!frow(F.E.col@[T[q] as int].indval@, i + 1, i as int)); assert(msame(b0, p2c@, i)); } }
@at loop 1 after
  proof { schur_done(S.E, F.E, i as int, j as int, a11, T); assert(T.skip(T.len() as int) =~= Seq::<usize>::empty()); }
  proof { E3 = F.E; b3 = p2c@; }
@at if 0 then end
  proof {
      leup_block(A, S, *F, E3, pv0, cf0, sg, (i - 1) as usize, j - 1, a11);
      pc_erase(b3, p2c@, E3, F.E, (i - 1) as usize, j as int);
  }
@at loop 0 after
  let ghost iN = i as int;
@loop 2
  invariant leup_inv(A, *F, pivs@, coeff@, sg, iN, j as int), n == A.n, j <= n, j < n ==> iN == A.m
  decreases n - j
@at loop 2 begin
  let ghost S = *F;
  proof { leup_facts(A, *F, pivs@, coeff@, sg, iN, j as int); leup_cpre(A, *F, pivs@, coeff@, sg, iN, j as int); }
@at loop 2 end
  proof { leup_clear(A, S, *F, pivs@, coeff@, sg, iN, j - 1); }
@at loop 2 after
  let ghost SZ = *F;
  proof { leup_facts(A, *F, pivs@, coeff@, sg, iN, j as int); }
@at exit
  proof { leup_done(A, SZ, *F, pivs@, coeff@, sg, iN); }
