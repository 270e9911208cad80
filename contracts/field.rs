// ---- field abstraction: the coefficient type is any type satisfying this contract ----
pub trait Field: Sized + Copy {
    spec fn sadd(a: Self, b: Self) -> Self;
    spec fn smul(a: Self, b: Self) -> Self;
    spec fn sneg(a: Self) -> Self;
    spec fn sinv(a: Self) -> Self;
    spec fn szero() -> Self;
    spec fn sone() -> Self;
    spec fn sint(i: int) -> Self;
    spec fn slt(a: Self, b: Self) -> bool;
    proof fn ax_add_comm(a: Self, b: Self) ensures Self::sadd(a, b) == Self::sadd(b, a);
    proof fn ax_add_assoc(a: Self, b: Self, c: Self) ensures Self::sadd(Self::sadd(a, b), c) == Self::sadd(a, Self::sadd(b, c));
    proof fn ax_add_zero(a: Self) ensures Self::sadd(a, Self::szero()) == a;
    proof fn ax_add_neg(a: Self) ensures Self::sadd(a, Self::sneg(a)) == Self::szero();
    proof fn ax_mul_comm(a: Self, b: Self) ensures Self::smul(a, b) == Self::smul(b, a);
    proof fn ax_mul_assoc(a: Self, b: Self, c: Self) ensures Self::smul(Self::smul(a, b), c) == Self::smul(a, Self::smul(b, c));
    proof fn ax_mul_one(a: Self) ensures Self::smul(a, Self::sone()) == a;
    proof fn ax_distrib(a: Self, b: Self, c: Self) ensures Self::smul(a, Self::sadd(b, c)) == Self::sadd(Self::smul(a, b), Self::smul(a, c));
    proof fn ax_inv(a: Self) requires a != Self::szero() ensures Self::smul(a, Self::sinv(a)) == Self::sone();
    proof fn ax_one_ne_zero() ensures Self::sone() != Self::szero();
    proof fn ax_int_m1() ensures Self::sint(-1) == Self::sneg(Self::sone());
    fn add(a: Self, b: Self) -> (r: Self) ensures r == Self::sadd(a, b);
    fn sub(a: Self, b: Self) -> (r: Self) ensures r == Self::sadd(a, Self::sneg(b));
    fn mul(a: Self, b: Self) -> (r: Self) ensures r == Self::smul(a, b);
    fn div(a: Self, b: Self) -> (r: Self) requires b != Self::szero() ensures r == Self::smul(a, Self::sinv(b));
    fn neg(a: Self) -> (r: Self) ensures r == Self::sneg(a);
    fn inv(a: Self) -> (r: Self) requires a != Self::szero() ensures r == Self::sinv(a);
    fn zero() -> (r: Self) ensures r == Self::szero();
    fn one() -> (r: Self) ensures r == Self::sone();
    fn of_int(i: i32) -> (r: Self) ensures r == Self::sint(i as int);
    fn eq(a: Self, b: Self) -> (r: bool) ensures r == (a == b);
    fn lt(a: Self, b: Self) -> (r: bool) ensures r == Self::slt(a, b);
}
pub broadcast proof fn fb_add_comm<F: Field>(a: F, b: F) ensures #[trigger] F::sadd(a, b) == F::sadd(b, a) { F::ax_add_comm(a, b); }
pub broadcast proof fn fb_add_zero<F: Field>(a: F) ensures #[trigger] F::sadd(a, F::szero()) == a { F::ax_add_zero(a); }
pub broadcast proof fn fb_add_zero2<F: Field>(a: F) ensures #[trigger] F::sadd(F::szero(), a) == a { F::ax_add_zero(a); F::ax_add_comm(a, F::szero()); }
pub broadcast proof fn fb_mul_comm<F: Field>(a: F, b: F) ensures #[trigger] F::smul(a, b) == F::smul(b, a) { F::ax_mul_comm(a, b); }
pub proof fn f_mul_zero<F: Field>(a: F) ensures F::smul(a, F::szero()) == F::szero() {
    let z = F::szero(); let p = F::smul(a, z);
    F::ax_add_zero(z); F::ax_distrib(a, z, z);           // p = p + p
    F::ax_add_neg(p); F::ax_add_assoc(p, p, F::sneg(p)); F::ax_add_zero(p);
}
pub broadcast proof fn fb_mul_zero<F: Field>(a: F) ensures #[trigger] F::smul(a, F::szero()) == F::szero() { f_mul_zero(a); }
pub broadcast proof fn fb_mul_zero2<F: Field>(a: F) ensures #[trigger] F::smul(F::szero(), a) == F::szero() { f_mul_zero(a); F::ax_mul_comm(a, F::szero()); }
pub broadcast proof fn fb_mul_one<F: Field>(a: F) ensures #[trigger] F::smul(a, F::sone()) == a { F::ax_mul_one(a); }
pub broadcast proof fn fb_mul_one2<F: Field>(a: F) ensures #[trigger] F::smul(F::sone(), a) == a { F::ax_mul_one(a); F::ax_mul_comm(a, F::sone()); }
pub broadcast proof fn fb_nz<F: Field>(a: F, b: F)
    requires a != F::szero(), b != F::szero()
    ensures #[trigger] F::smul(a, b) != F::szero()
{
    if F::smul(a, b) == F::szero() {
        F::ax_inv(a); F::ax_mul_comm(a, F::sinv(a)); F::ax_mul_assoc(F::sinv(a), a, b); F::ax_mul_one(b); F::ax_mul_comm(b, F::sone());
        f_mul_zero::<F>(F::sinv(a));
    }
}
pub broadcast group field_basic { fb_add_comm, fb_add_zero, fb_add_zero2, fb_mul_comm, fb_mul_zero, fb_mul_zero2, fb_mul_one, fb_mul_one2, fb_nz }

// uniqueness of the additive inverse, and its consequences
pub proof fn f_neg_uniq<F: Field>(a: F, b: F) requires F::sadd(a, b) == F::szero() ensures b == F::sneg(a)
{ F::ax_add_neg(a); F::ax_add_comm(a, F::sneg(a)); F::ax_add_assoc(F::sneg(a), a, b); F::ax_add_zero(F::sneg(a)); F::ax_add_zero(b); F::ax_add_comm(F::szero(), b); }
pub proof fn f_neg_mul<F: Field>(a: F, b: F) ensures F::smul(F::sneg(a), b) == F::sneg(F::smul(a, b)), F::smul(b, F::sneg(a)) == F::sneg(F::smul(a, b))
{ F::ax_add_neg(a); F::ax_distrib(b, a, F::sneg(a)); f_mul_zero(b); F::ax_mul_comm(a, b); F::ax_mul_comm(F::sneg(a), b); f_neg_uniq(F::smul(a, b), F::smul(F::sneg(a), b)); }
pub proof fn f_neg_one_mul<F: Field>(b: F) ensures F::smul(F::sneg(F::sone()), b) == F::sneg(b), F::smul(F::sint(-1), b) == F::sneg(b)
{ F::ax_int_m1(); f_neg_mul(F::sone(), b); F::ax_mul_one(b); F::ax_mul_comm(b, F::sone()); }
// a - v + v == a
pub proof fn f_sub_add<F: Field>(a: F, v: F) ensures F::sadd(F::sadd(a, F::sneg(v)), v) == a
{ F::ax_add_assoc(a, F::sneg(v), v); F::ax_add_neg(v); F::ax_add_comm(v, F::sneg(v)); F::ax_add_zero(a); }
pub proof fn f_neg_zero<F: Field>() ensures F::sneg(F::szero()) == F::szero() { broadcast use field_basic; f_neg_uniq(F::szero(), F::szero()); }
pub proof fn f_neg_add<F: Field>(a: F, b: F) ensures F::sneg(F::sadd(a, b)) == F::sadd(F::sneg(a), F::sneg(b))
{ f_neg_one_mul(F::sadd(a, b)); f_neg_one_mul(a); f_neg_one_mul(b); F::ax_distrib(F::sneg(F::sone()), a, b); }
