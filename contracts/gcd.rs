// std::gcd
pub open spec fn dvd(k: int, n: int) -> bool { k != 0 && n % k == 0 }
#[verifier::external_body]
pub fn cpp_gcd_i32(a: i32, b: i32) -> (r: i32)
    requires a != i32::MIN, b != i32::MIN
    ensures r >= 0, (a != 0 || b != 0) ==> r > 0 && dvd(r as int, a as int) && dvd(r as int, b as int) && forall|k: int| #[trigger] dvd(k, a as int) && dvd(k, b as int) ==> k <= r, a == 0 && b == 0 ==> r == 0
{ unimplemented!() }
