// ---- integer division as Rust does it (towards zero); by zero it panics
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - tdiv(a, b) * b }
pub open spec fn div_over(a: int, b: int) -> bool { b == 0 || (b == -1 && a == i32::MIN) }
pub trait VDiv: Sized { fn vchecked_div(self, o: Self) -> (r: Option<Self>) ensures match r { Some(x) => o.ai() != 0 && x.ai() == tdiv(self.ai(), o.ai()), None => div_over(self.ai(), o.ai()) }; fn vchecked_rem(self, o: Self) -> (r: Option<Self>) ensures match r { Some(x) => o.ai() != 0 && x.ai() == trem(self.ai(), o.ai()), None => div_over(self.ai(), o.ai()) };
    spec fn ai(self) -> int; fn vdiv(self, o: Self) -> (r: Self) ensures o.ai() != 0, r.ai() == tdiv(self.ai(), o.ai()); fn vrem(self, o: Self) -> (r: Self) ensures o.ai() != 0, r.ai() == trem(self.ai(), o.ai()); }
impl VDiv for i32 { #[verifier::external_body] fn vchecked_div(self, o: i32) -> (r: Option<i32>) { self.checked_div(o) } #[verifier::external_body] fn vchecked_rem(self, o: i32) -> (r: Option<i32>) { self.checked_rem(o) } open spec fn ai(self) -> int { self as int } #[verifier::external_body] fn vdiv(self, o: i32) -> (r: i32) { self / o } #[verifier::external_body] fn vrem(self, o: i32) -> (r: i32) { self % o } }
impl VDiv for u8 { #[verifier::external_body] fn vchecked_div(self, o: u8) -> (r: Option<u8>) { self.checked_div(o) } #[verifier::external_body] fn vchecked_rem(self, o: u8) -> (r: Option<u8>) { self.checked_rem(o) } open spec fn ai(self) -> int { self as int } #[verifier::external_body] fn vdiv(self, o: u8) -> (r: u8) { self / o } #[verifier::external_body] fn vrem(self, o: u8) -> (r: u8) { self % o } }
impl VDiv for u16 { #[verifier::external_body] fn vchecked_div(self, o: u16) -> (r: Option<u16>) { self.checked_div(o) } #[verifier::external_body] fn vchecked_rem(self, o: u16) -> (r: Option<u16>) { self.checked_rem(o) } open spec fn ai(self) -> int { self as int } #[verifier::external_body] fn vdiv(self, o: u16) -> (r: u16) { self / o } #[verifier::external_body] fn vrem(self, o: u16) -> (r: u16) { self % o } }
impl VDiv for u32 { #[verifier::external_body] fn vchecked_div(self, o: u32) -> (r: Option<u32>) { self.checked_div(o) } #[verifier::external_body] fn vchecked_rem(self, o: u32) -> (r: Option<u32>) { self.checked_rem(o) } open spec fn ai(self) -> int { self as int } #[verifier::external_body] fn vdiv(self, o: u32) -> (r: u32) { self / o } #[verifier::external_body] fn vrem(self, o: u32) -> (r: u32) { self % o } }
impl VDiv for u64 { #[verifier::external_body] fn vchecked_div(self, o: u64) -> (r: Option<u64>) { self.checked_div(o) } #[verifier::external_body] fn vchecked_rem(self, o: u64) -> (r: Option<u64>) { self.checked_rem(o) } open spec fn ai(self) -> int { self as int } #[verifier::external_body] fn vdiv(self, o: u64) -> (r: u64) { self / o } #[verifier::external_body] fn vrem(self, o: u64) -> (r: u64) { self % o } }
impl VDiv for u128 { #[verifier::external_body] fn vchecked_div(self, o: u128) -> (r: Option<u128>) { self.checked_div(o) } #[verifier::external_body] fn vchecked_rem(self, o: u128) -> (r: Option<u128>) { self.checked_rem(o) } open spec fn ai(self) -> int { self as int } #[verifier::external_body] fn vdiv(self, o: u128) -> (r: u128) { self / o } #[verifier::external_body] fn vrem(self, o: u128) -> (r: u128) { self % o } }
impl VDiv for usize { #[verifier::external_body] fn vchecked_div(self, o: usize) -> (r: Option<usize>) { self.checked_div(o) } #[verifier::external_body] fn vchecked_rem(self, o: usize) -> (r: Option<usize>) { self.checked_rem(o) } open spec fn ai(self) -> int { self as int } #[verifier::external_body] fn vdiv(self, o: usize) -> (r: usize) { self / o } #[verifier::external_body] fn vrem(self, o: usize) -> (r: usize) { self % o } }
pub proof fn l_trem0(a: int, b: int) requires b > 0 ensures trem(a, b) == 0 <==> a % b == 0, -b < trem(a, b) < b, a >= 0 ==> trem(a, b) >= 0, a <= 0 ==> trem(a, b) <= 0 {
    if a >= 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b); vstd::arithmetic::div_mod::lemma_mod_bound(a, b); assert(b * (a / b) == (a / b) * b) by (nonlinear_arith); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-a, b); vstd::arithmetic::div_mod::lemma_mod_bound(-a, b); let q = (-a) / b; assert(b * q == q * b) by (nonlinear_arith); assert((-q) * b == -(q * b)) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b); vstd::arithmetic::div_mod::lemma_mod_bound(a, b); let p = a / b; assert(b * p == p * b) by (nonlinear_arith);
        // a = p*b + a%b, -a = q*b + m
        let (m, n) = ((-a) % b, a % b);
        assert((p + q) * b + m + n == 0) by (nonlinear_arith) requires a == p * b + n, -a == q * b + m;
        if m == 0 { assert(n == 0) by (nonlinear_arith) requires (p + q) * b + n == 0, 0 <= n < b; }
        if n == 0 { assert(m == 0) by (nonlinear_arith) requires (p + q) * b + m == 0, 0 <= m < b; } }
}
impl U256 { #[verifier::external_body] pub fn vdiv(self, o: u128) -> (r: U256) ensures o != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
