@unit field
@rust
pub open spec fn prime(p: int) -> bool { p >= 2 && forall|k: int| 1 < k < p ==> !#[trigger] dvd(k, p) }
// the moduli for which products of residues fit the 32-bit value type
pub open spec fn okp(p: int) -> bool { prime(p) && p <= 46341 }
impl<const P: u32> ModP<P> {
    pub open spec fn wf(self) -> bool { 0 <= self.val < P }
}
pub proof fn div_unique(x: int, p: int, q: int, r: int)
    requires p > 0, x == q * p + r, 0 <= r < p
    ensures x / p == q, x % p == r
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, q, r);
}
pub proof fn fdm(x: int, p: int)
    requires p > 0
    ensures x == p * (x / p) + x % p, 0 <= x % p < p
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p); }
pub proof fn mod_add_mul(x: int, p: int, k: int)
    requires p > 0
    ensures (x + k * p) % p == x % p
{ fdm(x, p); assert(x + k * p == (x / p + k) * p + x % p) by(nonlinear_arith) requires x == p * (x / p) + x % p; div_unique(x + k * p, p, x / p + k, x % p); }
// the truncating C++ remainder, made canonical as the constructor does
pub proof fn trem_canon(v: int, p: int)
    requires p > 0
    ensures -p < trem(v, p) < p, 0 <= trem(trem(v, p) + p, p) < p, trem(trem(v, p) + p, p) == v % p, v >= 0 ==> trem(v, p) == v % p
{
    let t = trem(v, p);
    if v >= 0 { fdm(v, p); assert(p * (v / p) == p * tdiv(v, p)); assert(t == v % p); mod_add_mul(v % p, p, 1); vstd::arithmetic::div_mod::lemma_mod_twice(v, p);
        fdm(t + p, p); assert(trem(t + p, p) == (t + p) % p); }
    else {
        fdm(-v, p); let q = (-v) / p; let r = (-v) % p;
        assert(tdiv(v, p) == -q); assert(t == v - p * (-q)); assert(p * (-q) == -(p * q)) by(nonlinear_arith); assert(t == -r);
        fdm(t + p, p); assert(trem(t + p, p) == (t + p) % p);
        assert(v == (-q) * p + (-r)) by(nonlinear_arith) requires v == -(p * q + r);
        mod_add_mul(-r, p, -q); mod_add_mul(-r, p, 1); assert(1 * p == p);
    }
}
pub proof fn mod_of_small(x: int, p: int) requires 0 <= x < p ensures x % p == x { div_unique(x, p, 0, x); }
pub proof fn mod_shift(x: int, p: int) requires p > 0 ensures (x + p) % p == x % p, (x - p) % p == x % p { mod_add_mul(x, p, 1); mod_add_mul(x, p, -1); assert(1 * p == p); assert((-1) * p == -p); }
pub proof fn prod_bound(a: int, b: int, p: int)
    requires 0 <= a < p, 0 <= b < p, p <= 46341
    ensures 0 <= a * b <= 0x7fff_ffff
{ assert(0 <= a * b <= 46340 * 46340) by(nonlinear_arith) requires 0 <= a <= 46340, 0 <= b <= 46340; }
// every nonzero residue modulo a prime has an inverse
pub proof fn inv_exists(v: int, p: int) -> (w: int)
    requires prime(p), 0 < v < p
    ensures 0 < w < p, (w * v) % p == 1
    decreases v
{
    if v == 1 { mod_of_small(1, p); 1 }
    else {
        let q = p / v; let r = p % v; fdm(p, v);
        assert(!dvd(v, p)); assert(0 < r < v);
        let u = inv_exists(r, p);
        // u * r = 1 + k p,  r = p - v q
        let k = (u * r) / p; fdm(u * r, p);
        let z = -(q * u); let w = z % p; fdm(z, p);
        assert(z * v == u * r - u * p) by(nonlinear_arith) requires z == -(q * u), p == v * q + r;
        assert(w * v == (k - u - v * (z / p)) * p + 1) by(nonlinear_arith) requires z * v == u * r - u * p, u * r == p * k + 1, z == p * (z / p) + w;
        div_unique(w * v, p, k - u - v * (z / p), 1);
        if w == 0 { assert(w * v == 0) by(nonlinear_arith) requires w == 0; mod_of_small(0, p); }
        w
    }
}
// a nonzero residue has at most one quotient
pub proof fn quot_unique(a: int, b: int, v: int, p: int)
    requires prime(p), 0 < v < p, 0 <= a < p, 0 <= b < p, (a * v) % p == (b * v) % p
    ensures a == b
{
    let w = inv_exists(v, p);
    mul_mod(w, v, p, a); mul_mod(w, v, p, b);
    assert(a * v * w == a * (w * v)) by(nonlinear_arith); assert(b * v * w == b * (w * v)) by(nonlinear_arith);
    mod_mul_cong(a * v, b * v, w, p); mod_of_small(a, p); mod_of_small(b, p);
}
pub proof fn mod_mul_cong(x: int, y: int, w: int, p: int)
    requires p > 0, x % p == y % p
    ensures (x * w) % p == (y * w) % p
{
    fdm(x, p); fdm(y, p); let k = x / p - y / p;
    assert(x * w == y * w + (k * w) * p) by(nonlinear_arith) requires x == p * (x / p) + x % p, y == p * (y / p) + y % p, x % p == y % p, k == x / p - y / p;
    mod_add_mul(y * w, p, k * w);
}
pub proof fn mul_mod(w: int, v: int, p: int, a: int)
    requires p > 0, (w * v) % p == 1
    ensures (a * (w * v)) % p == a % p
{
    fdm(w * v, p); let k = (w * v) / p;
    assert(a * (w * v) == a + (a * k) * p) by(nonlinear_arith) requires w * v == p * k + 1;
    mod_add_mul(a, p, a * k);
}
// the residues 0..p-1 with these operations form a field: the axioms that unit la assumes of its coefficient type
pub open spec fn radd(a: int, b: int, p: int) -> int { (a + b) % p }
pub open spec fn rmul(a: int, b: int, p: int) -> int { (a * b) % p }
pub open spec fn rneg(a: int, p: int) -> int { (-a) % p }
pub open spec fn res(a: int, p: int) -> bool { 0 <= a < p }
pub proof fn residues_are_a_field(a: int, b: int, c: int, p: int)
    requires prime(p), res(a, p), res(b, p), res(c, p)
    ensures
        res(radd(a, b, p), p), res(rmul(a, b, p), p), res(rneg(a, p), p), res(0, p), res(1, p), 0int != 1int,
        radd(a, b, p) == radd(b, a, p), radd(radd(a, b, p), c, p) == radd(a, radd(b, c, p), p), radd(a, 0, p) == a, radd(a, rneg(a, p), p) == 0,
        rmul(a, b, p) == rmul(b, a, p), rmul(rmul(a, b, p), c, p) == rmul(a, rmul(b, c, p), p), rmul(a, 1, p) == a,
        rmul(a, radd(b, c, p), p) == radd(rmul(a, b, p), rmul(a, c, p), p),
        a != 0 ==> exists|w: int| res(w, p) && #[trigger] rmul(a, w, p) == 1,
{
    fdm(a + b, p); fdm(b + c, p); fdm(-a, p); fdm(a * b, p); fdm(b * c, p); fdm(a * c, p);
    mod_of_small(a, p); mod_of_small(0, p);
    assert(radd(a, b, p) + c == (a + b + c) + (-((a + b) / p)) * p) by(nonlinear_arith) requires a + b == p * ((a + b) / p) + radd(a, b, p);
    mod_add_mul(a + b + c, p, -((a + b) / p));
    assert(a + radd(b, c, p) == (a + b + c) + (-((b + c) / p)) * p) by(nonlinear_arith) requires b + c == p * ((b + c) / p) + radd(b, c, p);
    mod_add_mul(a + b + c, p, -((b + c) / p));
    assert(a + rneg(a, p) == (-((-a) / p)) * p + 0) by(nonlinear_arith) requires -a == p * ((-a) / p) + rneg(a, p);
    div_unique(a + rneg(a, p), p, -((-a) / p), 0);
    assert(a * b == b * a) by(nonlinear_arith);
    assert(rmul(a, b, p) * c == a * b * c + (-((a * b) / p) * c) * p) by(nonlinear_arith) requires a * b == p * ((a * b) / p) + rmul(a, b, p);
    mod_add_mul(a * b * c, p, -((a * b) / p) * c);
    assert(a * rmul(b, c, p) == a * b * c + (-((b * c) / p) * a) * p) by(nonlinear_arith) requires b * c == p * ((b * c) / p) + rmul(b, c, p);
    mod_add_mul(a * b * c, p, -((b * c) / p) * a);
    assert(a * radd(b, c, p) == a * b + a * c + (-((b + c) / p) * a) * p) by(nonlinear_arith) requires b + c == p * ((b + c) / p) + radd(b, c, p);
    mod_add_mul(a * b + a * c, p, -((b + c) / p) * a);
    assert(rmul(a, b, p) + rmul(a, c, p) == a * b + a * c + (-((a * b) / p + (a * c) / p)) * p) by(nonlinear_arith) requires a * b == p * ((a * b) / p) + rmul(a, b, p), a * c == p * ((a * c) / p) + rmul(a, c, p);
    mod_add_mul(a * b + a * c, p, -((a * b) / p + (a * c) / p));
    if a != 0 { let w = inv_exists(a, p); assert(w * a == a * w) by(nonlinear_arith); assert(res(w, p) && rmul(a, w, p) == 1); }
}
@end
@fn isprime(u32) as isprime
@prop P01
@requires
  p < u32::MAX,
@ensures
  ret == prime(p as int),
@at entry
  assert(p >> 1i32 == p / 2) by(bit_vector);
@loop 0
  invariant 2 <= i, p >= 2, p < u32::MAX, p >> 1i32 == p / 2, forall|k: int| 1 < k < i ==> !#[trigger] dvd(k, p as int), i <= p / 2 + 1,
  decreases p - i
@at loop 0 begin
  proof { if dvd(i as int, p as int) && i < p { assert(!prime(p as int)); } }
@at loop 0 after
  proof { assert forall|k: int| 1 < k < p implies !#[trigger] dvd(k, p as int) by { if k >= i { div_unique(p as int, k, 1, p - k); } } }
@fn ff_inv(i32) as ff_inv
@prop P01
@opt generics=const~P:~u32
@requires
  okp(P as int), 0 <= val < P
@throws val == 0
@ensures
  val != 0, 0 < ret < P, (ret * val) % (P as int) == 1,
@at loop 0 before
  let ghost w = inv_exists(val as int, P as int);
  proof { prod_bound(w, val as int, P as int); mod_of_small(1, P as int); assert(val <= w * val) by(nonlinear_arith) requires w >= 1, val > 0; }
@loop 0
  invariant okp(P as int), 0 < val < P, 1 <= b <= w, w < P, (w * val) % (P as int) == 1, c == b * val, 0 <= c <= w * val, w * val <= 0x7fff_ffff,
  decreases w - b
@at loop 0 begin
  proof { assert(b < w) by { if b == w { assert(c == w * val); } } assert((b + 1) * val == b * val + val) by(nonlinear_arith); assert((b + 1) * val <= w * val) by(nonlinear_arith) requires b + 1 <= w, val > 0; assert(b * val >= 0) by(nonlinear_arith) requires b >= 1, val > 0; }
@fn sgn(i32) as sgn
@prop P02
@ensures
  ret == if val > 0 { 1int } else if val < 0 { -1int } else { 0int },
@fn ModP<P>::new() as modp_zero
@prop P01
@opt generics=const~P:~u32
@requires
  P >= 2
@ensures
  ret.wf(), ret.val == 0
@fn ModP<P>::new(i32) as modp_new
@prop P01
@opt generics=const~P:~u32
@requires
  2 <= P <= 0x4000_0000
@ensures
  ret.wf(), ret.val == (val as int) % (P as int)
@at init
  proof { trem_canon(val as int, P as int); }
@fn ModP<P>::to_int() const as modp_to_int
@prop P01
@opt generics=const~P:~u32
@ensures
  ret == this.val
@fn ModP<P>::operator+(ModP<P>) const as modp_add
@prop P01
@opt generics=const~P:~u32
@requires
  2 <= P <= 0x4000_0000, this.wf(), b.wf()
@ensures
  ret.wf(), ret.val == radd(this.val as int, b.val as int, P as int)
@fn ModP<P>::operator+=(ModP<P>) as modp_add_assign
@prop P01
@opt generics=const~P:~u32 selfalias=b
@requires
  2 <= P <= 0x4000_0000, old(this).wf(), b.wf()
@ensures
  ret == *final(this), ret.wf(), ret.val == radd(old(this).val as int, b.val as int, P as int)
@fn ModP<P>::operator-(ModP<P>) const as modp_sub
@prop P01
@opt generics=const~P:~u32 wrap
@requires
  2 <= P <= 0x4000_0000, this.wf(), b.wf()
@ensures
  ret.wf(), ret.val == (this.val - b.val) % (P as int)
@at entry
  proof { mod_shift(this.val - b.val, P as int); }
@fn ModP<P>::operator-=(ModP<P>) as modp_sub_assign
@prop P01
@opt generics=const~P:~u32 wrap selfalias=b
@requires
  2 <= P <= 0x4000_0000, old(this).wf(), b.wf()
@ensures
  ret == *final(this), ret.wf(), ret.val == (old(this).val - b.val) % (P as int)
@at entry
  proof { mod_shift(this.val - b.val, P as int); }
@fn ModP<P>::operator-() const as modp_neg
@prop P01
@opt generics=const~P:~u32
@requires
  2 <= P <= 0x4000_0000, this.wf()
@ensures
  ret.wf(), ret.val == rneg(this.val as int, P as int)
@at entry
  proof { mod_shift(-this.val, P as int); }
@fn ModP<P>::operator*(ModP<P>) const as modp_mul
@prop P01
@opt generics=const~P:~u32
@requires
  2 <= P <= 46341, this.wf(), b.wf()
@ensures
  ret.wf(), ret.val == rmul(this.val as int, b.val as int, P as int)
@at entry
  proof { prod_bound(this.val as int, b.val as int, P as int); }
@fn ModP<P>::operator*=(ModP<P>) as modp_mul_assign
@prop P01
@opt generics=const~P:~u32 selfalias=b
@requires
  2 <= P <= 46341, old(this).wf(), b.wf()
@ensures
  ret == *final(this), ret.wf(), ret.val == rmul(old(this).val as int, b.val as int, P as int)
@at entry
  proof { prod_bound(this.val as int, b.val as int, P as int); }
@fn ModP<P>::operator==(ModP<P>) const as modp_eq
@prop P01
@opt generics=const~P:~u32
@ensures
  ret == (this.val == b.val)
@fn ModP<P>::operator!=(ModP<P>) const as modp_ne
@prop P01
@opt generics=const~P:~u32
@ensures
  ret == (this.val != b.val)
@fn ModP<P>::operator==(i32) const as modp_eq_int
@prop P01
@opt generics=const~P:~u32
@requires
  2 <= P <= 0x4000_0000, this.wf()
@ensures
  ret == (this.val == (b as int) % (P as int))
@fn ModP<P>::operator!=(i32) const as modp_ne_int
@prop P01
@opt generics=const~P:~u32
@requires
  2 <= P <= 0x4000_0000, this.wf()
@ensures
  ret == (this.val != (b as int) % (P as int))
@fn ModP<P>::operator<(ModP<P>) const as modp_lt
@prop P01
@opt generics=const~P:~u32
@requires
  2 <= P <= 0x4000_0000, this.wf(), b.wf()
@ensures
  ret == (this.val < b.val)
@at entry
  proof { mod_of_small(this.val as int, P as int); mod_of_small(b.val as int, P as int); }
@fn ModP<P>::inv() const as modp_inv
@prop P01
@opt generics=const~P:~u32
@requires
  okp(P as int), this.wf()
@throws this.val == 0
@ensures
  this.val != 0, ret.wf(), ret.val != 0, rmul(ret.val as int, this.val as int, P as int) == 1
@at after ff_inv 0
  proof { mod_of_small(r_ff_inv_0 as int, P as int); }
@fn ModP<P>::operator/(ModP<P>) const as modp_div
@prop P01
@opt generics=const~P:~u32
@requires
  okp(P as int), this.wf(), b.wf()
@throws b.val == 0
@ensures
  b.val != 0, ret.wf(), rmul(ret.val as int, b.val as int, P as int) == this.val
@at after modp_inv 0
  proof { let i = r_modp_inv_0.val as int; let p = P as int; let t = this.val as int; let v = b.val as int; prod_bound(t, i, p); mul_mod(i, v, p, t); mod_of_small(t, p);
    assert((t * i) * v == t * (i * v)) by(nonlinear_arith); fdm(t * i, p); vstd::arithmetic::div_mod::lemma_mod_twice(t * i, p); mod_mul_cong((t * i) % p, t * i, v, p); }
@fn ModP<P>::operator/=(ModP<P>) as modp_div_assign
@prop P01
@opt generics=const~P:~u32 selfalias=b
@requires
  okp(P as int), old(this).wf(), b.wf()
@throws b.val == 0
@ensures
  b.val != 0, ret == *final(this), ret.wf(), rmul(ret.val as int, b.val as int, P as int) == old(this).val
@at after modp_inv 0
  proof { let i = r_modp_inv_0.val as int; let p = P as int; let t = this.val as int; let v = b.val as int; prod_bound(t, i, p); mul_mod(i, v, p, t); mod_of_small(t, p);
    assert((t * i) * v == t * (i * v)) by(nonlinear_arith); fdm(t * i, p); vstd::arithmetic::div_mod::lemma_mod_twice(t * i, p); mod_mul_cong((t * i) % p, t * i, v, p); }
@fn ModP<P>::iszero() const as modp_iszero
@prop P01
@opt generics=const~P:~u32
@ensures
  ret == (this.val == 0)
@rust
// the element denoted by a Mod2 value is its low bit
pub open spec fn bit(x: i32) -> int { (x & 1i32) as int }
pub proof fn bits(a: i32, b: i32)
    ensures
        bit(a) == 0 || bit(a) == 1, (a & 1i32) == 0i32 || (a & 1i32) == 1i32, bit(a) == (a as int) % 2,
        bit(a ^ b) == (bit(a) + bit(b)) % 2, bit(a ^ b) == (bit(a) - bit(b)) % 2, bit(a & b) == bit(a) * bit(b), bit(b) == 0 || bit(b) == 1, bit(a) * 1 == bit(a), bit(b) == 1 ==> bit(a) * bit(b) == bit(a), bit(1) == 1, bit(0) == 0,
        bit((a ^ b) & 1i32) == (bit(a) + bit(b)) % 2,
{
    assert((a & 1i32) == 0i32 || (a & 1i32) == 1i32) by(bit_vector);
    assert((b & 1i32) == 0i32 || (b & 1i32) == 1i32) by(bit_vector);
    assert(((a ^ b) & 1i32) == ((a & 1i32) ^ (b & 1i32))) by(bit_vector);
    assert((((a ^ b) & 1i32) & 1i32) == ((a ^ b) & 1i32)) by(bit_vector);
    assert(((a & b) & 1i32) == ((a & 1i32) & (b & 1i32))) by(bit_vector);
    assert(1i32 & 1i32 == 1i32 && 0i32 & 1i32 == 0i32 && 1i32 & 0i32 == 0i32 && 0i32 & 0i32 == 0i32) by(bit_vector);
    assert(1i32 ^ 1i32 == 0i32 && 0i32 ^ 1i32 == 1i32 && 1i32 ^ 0i32 == 1i32 && 0i32 ^ 0i32 == 0i32) by(bit_vector);
    assert((a >> 1u32) * 2 + (a & 1i32) == a) by(bit_vector);
}
@end
@fn Mod2::new() as mod2_zero
@prop P01
@ensures
  bit(ret.val) == 0
@at entry
  proof { bits(0, 0); }
@fn Mod2::new(i32) as mod2_new
@prop P01
@ensures
  ret.val == val, bit(ret.val) == (val as int) % 2
@at entry
  proof { bits(val, 0); }
@fn Mod2::to_int() const as mod2_to_int
@prop P01
@ensures
  ret == bit(this.val), ret == 0 || ret == 1
@at entry
  proof { bits(this.val, 0); }
@fn Mod2::operator+(Mod2) const as mod2_add
@prop P01
@ensures
  bit(ret.val) == (bit(this.val) + bit(b.val)) % 2
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator+=(Mod2) as mod2_add_assign
@prop P01
@opt selfalias=b
@ensures
  *final(this) == ret, bit(ret.val) == (bit(old(this).val) + bit(b.val)) % 2
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator-(Mod2) const as mod2_sub
@prop P01
@ensures
  bit(ret.val) == (bit(this.val) - bit(b.val)) % 2
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator-=(Mod2) as mod2_sub_assign
@prop P01
@opt selfalias=b
@ensures
  *final(this) == ret, bit(ret.val) == (bit(old(this).val) - bit(b.val)) % 2
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator*(Mod2) const as mod2_mul
@prop P01
@ensures
  bit(ret.val) == bit(this.val) * bit(b.val)
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator*=(Mod2) as mod2_mul_assign
@prop P01
@opt selfalias=b
@ensures
  *final(this) == ret, bit(ret.val) == bit(old(this).val) * bit(b.val)
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator-() as mod2_neg
@prop P01
@ensures
  *final(this) == *old(this), ret == *final(this), bit(ret.val) == (-bit(old(this).val)) % 2
@at entry
  proof { bits(this.val, 0); }
@fn Mod2::operator/(Mod2) const as mod2_div
@prop P01
@throws bit(b.val) == 0
@ensures
  bit(b.val) != 0, (bit(ret.val) * bit(b.val)) % 2 == bit(this.val)
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator/=(Mod2) as mod2_div_assign
@prop P01
@opt selfalias=b
@throws bit(b.val) == 0
@ensures
  bit(b.val) != 0, ret == *final(this), (bit(ret.val) * bit(b.val)) % 2 == bit(old(this).val)
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::inv() const as mod2_inv
@prop P01
@throws bit(this.val) == 0
@ensures
  bit(this.val) != 0, bit(ret.val) * bit(this.val) == 1
@at entry
  proof { bits(this.val, 1); }
@fn Mod2::operator==(Mod2) const as mod2_eq
@prop P01
@ensures
  ret == (bit(this.val) == bit(b.val))
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator!=(Mod2) const as mod2_ne
@prop P01
@ensures
  ret == (bit(this.val) != bit(b.val))
@at entry
  proof { bits(this.val, b.val); }
@fn Mod2::operator==(i32) const as mod2_eq_int
@prop P01
@ensures
  ret == (bit(this.val) == (b as int) % 2)
@at entry
  proof { bits(b, 0); }
@fn Mod2::operator!=(i32) const as mod2_ne_int
@prop P01
@ensures
  ret == (bit(this.val) != (b as int) % 2)
@at entry
  proof { bits(b, 0); }
@fn Mod2::operator=(i32) as mod2_assign
@prop P01
@ensures
  ret == *final(this), bit(ret.val) == (a as int) % 2
@at entry
  proof { bits(a, 0); }
@fn Mod2::iszero() const as mod2_iszero
@prop P01
@ensures
  ret == (bit(this.val) == 0)
@fn Mod2::operator<(Mod2) const as mod2_lt
@prop P01
@ensures
  ret == (bit(this.val) < bit(b.val))
@at entry
  proof { bits(this.val, b.val); }
@rust
pub open spec fn fits(x: int) -> bool { -0x7fff_ffff <= x <= 0x7fff_ffff }
pub open spec fn coprime(a: int, b: int) -> bool { forall|k: int| k > 1 && #[trigger] dvd(k, a) ==> !dvd(k, b) }
impl Rat {
    // lowest terms with a positive denominator
    pub open spec fn wf(self) -> bool { self.d > 0 && fits(self.n as int) && coprime(self.n as int, self.d as int) }
    // the rational number n/d
    pub open spec fn is(self, n: int, d: int) -> bool { self.wf() && self.n * d == n * self.d }
}
pub proof fn dvd_q(k: int, n: int) requires dvd(k, n) ensures n == k * (n / k)
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, k); }
pub proof fn dvd_of(k: int, q: int) requires k > 0 ensures dvd(k, k * q), (k * q) / k == q
{ assert(k * q == q * k) by(nonlinear_arith); div_unique(k * q, k, q, 0); }
pub proof fn tdiv_exact(g: int, q: int) requires g > 0 ensures tdiv(g * q, g) == q
{
    if g * q >= 0 { dvd_of(g, q); } else { dvd_of(g, -q); assert(g * (-q) == -(g * q)) by(nonlinear_arith); }
}
pub proof fn neg_coprime(a: int, b: int) requires coprime(a, b) ensures coprime(-a, -b)
{ assert forall|k: int| k > 1 && #[trigger] dvd(k, -a) implies !dvd(k, -b) by { if dvd(k, -b) { dvd_q(k, -a); dvd_q(k, -b); let x = (-a) / k; let y = (-b) / k; assert(a == k * (-x)) by(nonlinear_arith) requires -a == k * x; assert(b == k * (-y)) by(nonlinear_arith) requires -b == k * y; dvd_of(k, -x); dvd_of(k, -y); } } }
// dividing by the greatest common divisor leaves coprime numbers
pub proof fn lowest(n: int, d: int, g: int)
    requires g > 0, dvd(g, n), dvd(g, d), forall|k: int| #[trigger] dvd(k, n) && dvd(k, d) ==> k <= g
    ensures coprime(n / g, d / g), n == g * (n / g), d == g * (d / g)
{
    dvd_q(g, n); dvd_q(g, d); let a = n / g; let b = d / g;
    assert forall|k: int| k > 1 && #[trigger] dvd(k, a) implies !dvd(k, b) by {
        if dvd(k, b) {
            dvd_q(k, a); dvd_q(k, b); let x = a / k; let y = b / k;
            assert(n == (g * k) * x) by(nonlinear_arith) requires n == g * a, a == k * x;
            assert(d == (g * k) * y) by(nonlinear_arith) requires d == g * b, b == k * y;
            assert(g * k > g) by(nonlinear_arith) requires g > 0, k > 1;
            dvd_of(g * k, x); dvd_of(g * k, y);
        }
    }
}
pub proof fn bezout(a: int, b: int) -> (r: (int, int, int))
    requires a >= 0, b >= 0, a + b > 0
    ensures r.2 == a * r.0 + b * r.1, r.2 > 0, dvd(r.2, a), dvd(r.2, b)
    decreases b
{
    if b == 0 { assert(a * 1 + b * 0 == a); assert(a * 1 == a); dvd_of(a, 1); assert(a * 0 == 0); dvd_of(a, 0); (1, 0, a) }
    else {
        fdm(a, b); let q = a / b; let (x, y, g) = bezout(b, a % b);
        assert(g == a * y + b * (x - q * y)) by(nonlinear_arith) requires g == b * x + (a % b) * y, a == b * q + a % b;
        dvd_q(g, b); dvd_q(g, a % b); let u = b / g; let v = (a % b) / g;
        assert(a == g * (u * q + v)) by(nonlinear_arith) requires a == b * q + a % b, b == g * u, a % b == g * v;
        dvd_of(g, u * q + v);
        (y, x - q * y, g)
    }
}
// b | a*d and coprime(a,b) imply b | d
pub proof fn gauss(a: int, b: int, c: int, d: int)
    requires b > 0, coprime(a, b), a * d == c * b
    ensures dvd(b, d)
{
    let s: int = if a >= 0 { 1 } else { -1 }; let aa = s * a; assert(aa >= 0 && aa * s == a) by(nonlinear_arith) requires s == 1 && a >= 0 || s == -1 && a < 0, aa == s * a;
    let (x, y, g) = bezout(aa, b);
    if g > 1 { dvd_q(g, aa); let q = aa / g; assert(a == g * (q * s)) by(nonlinear_arith) requires aa * s == a, aa == g * q; dvd_of(g, q * s); assert(false); }
    let m = s * x;
    assert(aa * x == a * m) by(nonlinear_arith) requires aa == s * a, m == s * x;
    assert(d * 1 == d * (a * m) + d * (b * y)) by(nonlinear_arith) requires 1 == a * m + b * y;
    assert(d * (a * m) == (a * d) * m) by(nonlinear_arith);
    assert((c * b) * m == b * (m * c)) by(nonlinear_arith);
    assert(d * (b * y) == b * (y * d)) by(nonlinear_arith);
    assert(b * (m * c) + b * (y * d) == b * (m * c + y * d)) by(nonlinear_arith);
    dvd_of(b, m * c + y * d);
}
pub proof fn dvd_le(k: int, n: int) requires k > 0, n > 0, dvd(k, n) ensures k <= n
{ dvd_q(k, n); assert(n / k >= 1) by(nonlinear_arith) requires n == k * (n / k), n > 0, k > 0; assert(k * (n / k) >= k) by(nonlinear_arith) requires n / k >= 1, k > 0; }
// equal fractions in lowest terms are identical
pub proof fn lowest_unique(a: int, b: int, c: int, d: int)
    requires b > 0, d > 0, coprime(a, b), coprime(c, d), a * d == c * b
    ensures a == c, b == d
{
    gauss(a, b, c, d); gauss(c, d, a, b); dvd_le(b, d); dvd_le(d, b);
    assert(a == c) by(nonlinear_arith) requires a * d == c * b, b == d, b > 0;
}
pub proof fn coprime_one(n: int) ensures coprime(n, 1)
{ assert forall|k: int| k > 1 && #[trigger] dvd(k, n) implies !dvd(k, 1) by { if dvd(k, 1) { dvd_le(k, 1); } } }
pub proof fn q_trans(n: int, d: int, a: int, b: int, g: int, s: int)
    requires a == g * n, b == g * d
    ensures (s * n) * b == a * (s * d)
{ assert((s * n) * b == a * (s * d)) by(nonlinear_arith) requires a == g * n, b == g * d; }
pub proof fn abs_div(g: int, q: int, n: int) requires g >= 1, n == g * q, fits(n) ensures fits(q), q == 0 <==> n == 0
{ assert(fits(q) && (q == 0 <==> n == 0)) by(nonlinear_arith) requires g >= 1, n == g * q, fits(n); }
@end
@fn Rat::reduce() as rat_reduce
@prop P02
@requires
  old(this).d != 0, fits(old(this).n as int), fits(old(this).d as int)
@ensures
  final(this).is(old(this).n as int, old(this).d as int)
@at after sgn 0
  proof { let n = this.n as int; let d = this.d as int; let g = gcd as int; lowest(n, d, g); tdiv_exact(g, n / g); tdiv_exact(g, d / g); abs_div(g, n / g, n); abs_div(g, d / g, d);
    if d < 0 { neg_coprime(n / g, d / g); assert(d / g < 0) by(nonlinear_arith) requires d < 0, d == g * (d / g), g > 0; q_trans(n / g, d / g, n, d, g, -1); assert(-1 * (n / g) == -(n / g)); assert(-1 * (d / g) == -(d / g)); }
    else { assert(d / g > 0) by(nonlinear_arith) requires d > 0, d == g * (d / g), g > 0; q_trans(n / g, d / g, n, d, g, 1); assert(1 * (n / g) == n / g); assert(1 * (d / g) == d / g); } }
@fn Rat::new() as rat_zero
@prop P02
@ensures
  ret.is(0, 1)
@at entry
  proof { coprime_one(0); }
@fn Rat::new(i32, i32) as rat_new
@prop P02
@requires
  d0 != 0, fits(n0 as int), fits(d0 as int)
@ensures
  ret.is(n0 as int, d0 as int)
@fn Rat::new(i32) as rat_of_int
@prop P02
@requires
  fits(n as int)
@ensures
  ret.is(n as int, 1)
@at init
  proof { coprime_one(n as int); }
@fn Rat::to_int() const as rat_to_int
@prop P02
@requires
  this.wf()
@ensures
  ret == tdiv(this.n as int, this.d as int)
@fn Rat::operator+(Rat) const as rat_add
@prop P02
@requires
  this.wf(), b.wf(), fits(this.n * b.d), fits(b.n * this.d), fits(this.n * b.d + b.n * this.d), fits(this.d * b.d)
@ensures
  ret.is(this.n * b.d + b.n * this.d, this.d * b.d)
@at entry
  proof { assert(this.d * b.d > 0) by(nonlinear_arith) requires this.d > 0, b.d > 0; }
@fn Rat::operator+=(Rat) as rat_add_assign
@prop P02
@opt selfalias=b
@requires
  old(this).wf(), b.wf(), fits(old(this).n * b.d), fits(b.n * old(this).d), fits(old(this).n * b.d + b.n * old(this).d), fits(old(this).d * b.d)
@ensures
  ret == *final(this), ret.is(old(this).n * b.d + b.n * old(this).d, old(this).d * b.d)
@at entry
  proof { assert(this.d * b.d > 0) by(nonlinear_arith) requires this.d > 0, b.d > 0; }
@fn Rat::operator-(Rat) const as rat_sub
@prop P02
@requires
  this.wf(), b.wf(), fits(this.n * b.d), fits(b.n * this.d), fits(this.n * b.d - b.n * this.d), fits(this.d * b.d)
@ensures
  ret.is(this.n * b.d - b.n * this.d, this.d * b.d)
@at entry
  proof { assert(this.d * b.d > 0) by(nonlinear_arith) requires this.d > 0, b.d > 0; }
@fn Rat::operator-=(Rat) as rat_sub_assign
@prop P02
@opt selfalias=b
@requires
  old(this).wf(), b.wf(), fits(old(this).n * b.d), fits(b.n * old(this).d), fits(old(this).n * b.d - b.n * old(this).d), fits(old(this).d * b.d)
@ensures
  ret == *final(this), ret.is(old(this).n * b.d - b.n * old(this).d, old(this).d * b.d)
@at entry
  proof { assert(this.d * b.d > 0) by(nonlinear_arith) requires this.d > 0, b.d > 0; }
@fn Rat::operator*(Rat) const as rat_mul
@prop P02
@requires
  this.wf(), b.wf(), fits(this.n * b.n), fits(this.d * b.d)
@ensures
  ret.is(this.n * b.n, this.d * b.d)
@at entry
  proof { assert(this.d * b.d > 0) by(nonlinear_arith) requires this.d > 0, b.d > 0; }
@fn Rat::operator*=(Rat) as rat_mul_assign
@prop P02
@opt selfalias=b
@requires
  old(this).wf(), b.wf(), fits(old(this).n * b.n), fits(old(this).d * b.d)
@ensures
  ret == *final(this), ret.is(old(this).n * b.n, old(this).d * b.d)
@at entry
  proof { assert(this.d * b.d > 0) by(nonlinear_arith) requires this.d > 0, b.d > 0; }
@fn Rat::operator-() const as rat_neg
@prop P02
@requires
  this.wf()
@ensures
  ret.is(-this.n, this.d as int)
@fn Rat::operator==(Rat) const as rat_eq
@prop P02
@requires
  this.wf(), b.wf()
@ensures
  ret == (this.n * b.d == b.n * this.d)
@at entry
  proof { if this.n * b.d == b.n * this.d { lowest_unique(this.n as int, this.d as int, b.n as int, b.d as int); } }
@fn Rat::operator!=(Rat) const as rat_ne
@prop P02
@requires
  this.wf(), b.wf()
@ensures
  ret == (this.n * b.d != b.n * this.d)
@at entry
  proof { if this.n * b.d == b.n * this.d { lowest_unique(this.n as int, this.d as int, b.n as int, b.d as int); } }
@fn Rat::operator==(i32) const as rat_eq_int
@prop P02
@requires
  this.wf()
@ensures
  ret == (this.n == b * this.d)
@at entry
  proof { coprime_one(b as int); if this.n == b * this.d { assert(this.n * 1 == this.n); lowest_unique(this.n as int, this.d as int, b as int, 1); } }
@fn Rat::operator!=(i32) const as rat_ne_int
@prop P02
@requires
  this.wf()
@ensures
  ret == (this.n != b * this.d)
@at entry
  proof { coprime_one(b as int); if this.n == b * this.d { assert(this.n * 1 == this.n); lowest_unique(this.n as int, this.d as int, b as int, 1); } }
@fn Rat::operator<(Rat) const as rat_lt
@prop P02
@requires
  this.wf(), b.wf(), fits(this.n * b.d), fits(b.n * this.d)
@ensures
  ret == (this.n * b.d < b.n * this.d)
@fn Rat::inv() const as rat_inv
@prop P02
@requires
  this.wf()
@throws this.n == 0
@ensures
  this.n != 0, ret.is(this.d as int, this.n as int)
@fn Rat::operator/(Rat) const as rat_div
@prop P02
@requires
  this.wf(), b.wf(), fits(this.n * b.d), fits(this.d * b.n)
@throws b.n == 0
@ensures
  b.n != 0, ret.is(this.n * b.d, this.d * b.n)
@at entry
  proof { if b.n != 0 { assert(this.d * b.n != 0) by(nonlinear_arith) requires this.d > 0, b.n != 0; } }
@fn Rat::operator/=(Rat) as rat_div_assign
@prop P02
@opt selfalias=b
@requires
  old(this).wf(), b.wf(), fits(old(this).n * b.d), fits(old(this).d * b.n)
@throws b.n == 0
@ensures
  b.n != 0, ret == *final(this), ret.is(old(this).n * b.d, old(this).d * b.n)
@at entry
  proof { if b.n != 0 { assert(this.d * b.n != 0) by(nonlinear_arith) requires this.d > 0, b.n != 0; } }
@fn Rat::iszero() const as rat_iszero
@prop P02
@ensures
  ret == (this.n == 0)
