pub mod uint { use super::*; use vstd::prelude::*;
// ---- unsigned integers: the `uint` crate is outside the verified code; its operations are trusted
// with the contracts below, all stated on the mathematical value uv() of the limbs.
pub trait UVal: Sized {
    spec fn uv(self) -> int;
    spec fn umin() -> int;
    spec fn umax() -> int;
    proof fn uv_range(self) ensures Self::umin() <= self.uv() <= Self::umax();
}
pub trait VFrom<T: UVal>: UVal { fn vfrom(v: T) -> (r: Self) ensures r.uv() == v.uv(); }
pub trait VTryFrom<T: UVal>: UVal { fn vtry_from(v: T) -> (r: Result<Self, VString>) ensures match r { Ok(x) => x.uv() == v.uv(), Err(_) => v.uv() < Self::umin() || v.uv() > Self::umax() }; }
pub trait VTryInto<T: UVal>: UVal { fn vtry_into(self) -> (r: Result<T, VString>) ensures match r { Ok(x) => x.uv() == self.uv(), Err(_) => self.uv() < T::umin() || self.uv() > T::umax() }; }
impl<A: UVal, B: VTryFrom<A>> VTryInto<B> for A { fn vtry_into(self) -> (r: Result<B, VString>) { B::vtry_from(self) } }
pub trait VInto<T: UVal>: UVal { fn vinto(self) -> (r: T) ensures r.uv() == self.uv(); }
impl<A: UVal, B: VFrom<A>> VInto<B> for A { fn vinto(self) -> (r: B) { B::vfrom(self) } }

impl UVal for u8 { open spec fn uv(self) -> int { self as int } open spec fn umin() -> int { 0 } open spec fn umax() -> int { 255 } proof fn uv_range(self) {} }
impl UVal for u16 { open spec fn uv(self) -> int { self as int } open spec fn umin() -> int { 0 } open spec fn umax() -> int { 65535 } proof fn uv_range(self) {} }
impl UVal for u32 { open spec fn uv(self) -> int { self as int } open spec fn umin() -> int { 0 } open spec fn umax() -> int { 4294967295 } proof fn uv_range(self) {} }
impl UVal for u64 { open spec fn uv(self) -> int { self as int } open spec fn umin() -> int { 0 } open spec fn umax() -> int { 18446744073709551615 } proof fn uv_range(self) {} }
impl UVal for u128 { open spec fn uv(self) -> int { self as int } open spec fn umin() -> int { 0 } open spec fn umax() -> int { 340282366920938463463374607431768211455 } proof fn uv_range(self) {} }
impl UVal for i32 { open spec fn uv(self) -> int { self as int } open spec fn umin() -> int { (-2147483648) } open spec fn umax() -> int { 2147483647 } proof fn uv_range(self) {} }
impl UVal for usize { open spec fn uv(self) -> int { self as int } open spec fn umin() -> int { 0 } open spec fn umax() -> int { usize::MAX as int } proof fn uv_range(self) {} }
impl UVal for i64 { open spec fn uv(self) -> int { self as int } open spec fn umin() -> int { (-9223372036854775808) } open spec fn umax() -> int { 9223372036854775807 } proof fn uv_range(self) {} }
impl VFrom<u8> for u8 { #[verifier::external_body] fn vfrom(v: u8) -> (r: u8) { unimplemented!() } }
impl VTryFrom<u8> for u8 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u8> for u16 { #[verifier::external_body] fn vfrom(v: u8) -> (r: u16) { unimplemented!() } }
impl VTryFrom<u8> for u16 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u8> for u32 { #[verifier::external_body] fn vfrom(v: u8) -> (r: u32) { unimplemented!() } }
impl VTryFrom<u8> for u32 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u8> for u64 { #[verifier::external_body] fn vfrom(v: u8) -> (r: u64) { unimplemented!() } }
impl VTryFrom<u8> for u64 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u8> for u128 { #[verifier::external_body] fn vfrom(v: u8) -> (r: u128) { unimplemented!() } }
impl VTryFrom<u8> for u128 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<u8> for i32 { #[verifier::external_body] fn vfrom(v: u8) -> (r: i32) { unimplemented!() } }
impl VTryFrom<u8> for i32 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<i32, VString>) { unimplemented!() } }
impl VFrom<u8> for usize { #[verifier::external_body] fn vfrom(v: u8) -> (r: usize) { unimplemented!() } }
impl VTryFrom<u8> for usize { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<usize, VString>) { unimplemented!() } }
impl VFrom<u8> for i64 { #[verifier::external_body] fn vfrom(v: u8) -> (r: i64) { unimplemented!() } }
impl VTryFrom<u8> for i64 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<i64, VString>) { unimplemented!() } }
impl VTryFrom<u16> for u8 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u16> for u16 { #[verifier::external_body] fn vfrom(v: u16) -> (r: u16) { unimplemented!() } }
impl VTryFrom<u16> for u16 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u16> for u32 { #[verifier::external_body] fn vfrom(v: u16) -> (r: u32) { unimplemented!() } }
impl VTryFrom<u16> for u32 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u16> for u64 { #[verifier::external_body] fn vfrom(v: u16) -> (r: u64) { unimplemented!() } }
impl VTryFrom<u16> for u64 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u16> for u128 { #[verifier::external_body] fn vfrom(v: u16) -> (r: u128) { unimplemented!() } }
impl VTryFrom<u16> for u128 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<u16> for i32 { #[verifier::external_body] fn vfrom(v: u16) -> (r: i32) { unimplemented!() } }
impl VTryFrom<u16> for i32 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<i32, VString>) { unimplemented!() } }
impl VFrom<u16> for usize { #[verifier::external_body] fn vfrom(v: u16) -> (r: usize) { unimplemented!() } }
impl VTryFrom<u16> for usize { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<usize, VString>) { unimplemented!() } }
impl VFrom<u16> for i64 { #[verifier::external_body] fn vfrom(v: u16) -> (r: i64) { unimplemented!() } }
impl VTryFrom<u16> for i64 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<i64, VString>) { unimplemented!() } }
impl VTryFrom<u32> for u8 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VTryFrom<u32> for u16 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u32> for u32 { #[verifier::external_body] fn vfrom(v: u32) -> (r: u32) { unimplemented!() } }
impl VTryFrom<u32> for u32 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u32> for u64 { #[verifier::external_body] fn vfrom(v: u32) -> (r: u64) { unimplemented!() } }
impl VTryFrom<u32> for u64 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u32> for u128 { #[verifier::external_body] fn vfrom(v: u32) -> (r: u128) { unimplemented!() } }
impl VTryFrom<u32> for u128 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VTryFrom<u32> for i32 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<i32, VString>) { unimplemented!() } }
impl VTryFrom<u32> for usize { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<usize, VString>) { unimplemented!() } }
impl VFrom<u32> for i64 { #[verifier::external_body] fn vfrom(v: u32) -> (r: i64) { unimplemented!() } }
impl VTryFrom<u32> for i64 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<i64, VString>) { unimplemented!() } }
impl VTryFrom<u64> for u8 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VTryFrom<u64> for u16 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VTryFrom<u64> for u32 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u64> for u64 { #[verifier::external_body] fn vfrom(v: u64) -> (r: u64) { unimplemented!() } }
impl VTryFrom<u64> for u64 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u64> for u128 { #[verifier::external_body] fn vfrom(v: u64) -> (r: u128) { unimplemented!() } }
impl VTryFrom<u64> for u128 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VTryFrom<u64> for i32 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<i32, VString>) { unimplemented!() } }
impl VTryFrom<u64> for usize { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<usize, VString>) { unimplemented!() } }
impl VTryFrom<u64> for i64 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<i64, VString>) { unimplemented!() } }
impl VTryFrom<u128> for u8 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VTryFrom<u128> for u16 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VTryFrom<u128> for u32 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VTryFrom<u128> for u64 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u128> for u128 { #[verifier::external_body] fn vfrom(v: u128) -> (r: u128) { unimplemented!() } }
impl VTryFrom<u128> for u128 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VTryFrom<u128> for i32 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<i32, VString>) { unimplemented!() } }
impl VTryFrom<u128> for usize { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<usize, VString>) { unimplemented!() } }
impl VTryFrom<u128> for i64 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<i64, VString>) { unimplemented!() } }
impl VTryFrom<i32> for u8 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VTryFrom<i32> for u16 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VTryFrom<i32> for u32 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VTryFrom<i32> for u64 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VTryFrom<i32> for u128 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<i32> for i32 { #[verifier::external_body] fn vfrom(v: i32) -> (r: i32) { unimplemented!() } }
impl VTryFrom<i32> for i32 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<i32, VString>) { unimplemented!() } }
impl VTryFrom<i32> for usize { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<usize, VString>) { unimplemented!() } }
impl VFrom<i32> for i64 { #[verifier::external_body] fn vfrom(v: i32) -> (r: i64) { unimplemented!() } }
impl VTryFrom<i32> for i64 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<i64, VString>) { unimplemented!() } }
impl VTryFrom<usize> for u8 { #[verifier::external_body] fn vtry_from(v: usize) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VTryFrom<usize> for u16 { #[verifier::external_body] fn vtry_from(v: usize) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VTryFrom<usize> for u32 { #[verifier::external_body] fn vtry_from(v: usize) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VTryFrom<usize> for u64 { #[verifier::external_body] fn vtry_from(v: usize) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VTryFrom<usize> for u128 { #[verifier::external_body] fn vtry_from(v: usize) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VTryFrom<usize> for i32 { #[verifier::external_body] fn vtry_from(v: usize) -> (r: Result<i32, VString>) { unimplemented!() } }
impl VFrom<usize> for usize { #[verifier::external_body] fn vfrom(v: usize) -> (r: usize) { unimplemented!() } }
impl VTryFrom<usize> for usize { #[verifier::external_body] fn vtry_from(v: usize) -> (r: Result<usize, VString>) { unimplemented!() } }
impl VTryFrom<usize> for i64 { #[verifier::external_body] fn vtry_from(v: usize) -> (r: Result<i64, VString>) { unimplemented!() } }
impl VTryFrom<i64> for u8 { #[verifier::external_body] fn vtry_from(v: i64) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VTryFrom<i64> for u16 { #[verifier::external_body] fn vtry_from(v: i64) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VTryFrom<i64> for u32 { #[verifier::external_body] fn vtry_from(v: i64) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VTryFrom<i64> for u64 { #[verifier::external_body] fn vtry_from(v: i64) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VTryFrom<i64> for u128 { #[verifier::external_body] fn vtry_from(v: i64) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VTryFrom<i64> for i32 { #[verifier::external_body] fn vtry_from(v: i64) -> (r: Result<i32, VString>) { unimplemented!() } }
impl VTryFrom<i64> for usize { #[verifier::external_body] fn vtry_from(v: i64) -> (r: Result<usize, VString>) { unimplemented!() } }
impl VFrom<i64> for i64 { #[verifier::external_body] fn vfrom(v: i64) -> (r: i64) { unimplemented!() } }
impl VTryFrom<i64> for i64 { #[verifier::external_body] fn vtry_from(v: i64) -> (r: Result<i64, VString>) { unimplemented!() } }

#[verifier::opaque]
pub open spec fn u128_val(a: [u64; 2]) -> int { ((a[0] as int) + 18446744073709551616 * (a[1] as int)) }
#[derive(Clone, Copy)]
pub struct U128(pub [u64; 2]);
impl UVal for U128 {
    open spec fn uv(self) -> int { u128_val(self.0) }
    open spec fn umin() -> int { 0 }
    open spec fn umax() -> int { ((18446744073709551616 * 18446744073709551616) - 1) }
    proof fn uv_range(self) { reveal(u128_val); }
}
pub broadcast proof fn u128_range(x: U128) ensures 0 <= #[trigger] x.uv() <= ((18446744073709551616 * 18446744073709551616) - 1) { reveal(u128_val); }
impl U128 {
    #[verifier::external_body] pub exec const MAX: U128 ensures U128::MAX.uv() == ((18446744073709551616 * 18446744073709551616) - 1) { U128([u64::MAX; 2]) }
    #[verifier::external_body] pub fn max_value() -> (r: U128) ensures r.uv() == ((18446744073709551616 * 18446744073709551616) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: U128) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U128) ensures r.uv() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: U128) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.uv() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: U128) -> (r: Option<U128>) ensures match r { Some(x) => x.uv() == self.uv() + o.uv(), None => self.uv() + o.uv() > ((18446744073709551616 * 18446744073709551616) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: U128) -> (r: Option<U128>) ensures match r { Some(x) => x.uv() == self.uv() - o.uv(), None => self.uv() < o.uv() } { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: U128) -> (r: Option<U128>) ensures match r { Some(x) => x.uv() == self.uv() * o.uv(), None => self.uv() * o.uv() > ((18446744073709551616 * 18446744073709551616) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_div(self, o: U128) -> (r: Option<U128>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() / o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: U128) -> (r: Option<U128>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() % o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_pow(self, o: U128) -> (r: Option<U128>) ensures match r { Some(x) => x.uv() == ipow(self.uv(), o.uv() as nat), None => ipow(self.uv(), o.uv() as nat) > ((18446744073709551616 * 18446744073709551616) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r == self.0[0] { unimplemented!() }
    #[verifier::external_body] pub fn low_u128(&self) -> (r: u128) ensures r as int == self.0[0] as int + (self.0[1] as int) * 18446744073709551616 { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r as int == self.uv() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as int == self.uv() { unimplemented!() }
}

impl PartialEq for U128 { #[verifier::external_body] fn eq(&self, o: &U128) -> (r: bool) ensures r == (self.uv() == o.uv()), r == (*self == *o) { unimplemented!() } }
impl Eq for U128 {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for U128 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U128) -> bool { *self == *o } }
impl PartialOrd for U128 { #[verifier::external_body] fn partial_cmp(&self, o: &U128) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U128 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U128) -> Option<core::cmp::Ordering> { if self.uv() < o.uv() { Some(core::cmp::Ordering::Less) } else if self.uv() > o.uv() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl core::ops::Add<U128> for U128 { type Output = U128; #[verifier::external_body] fn add(self, o: U128) -> (r: U128) ensures r.uv() == self.uv() + o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<U128> for U128 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: U128) -> bool { true } open spec fn add_spec(self, o: U128) -> U128 { arbitrary() } }
impl core::ops::Add<i32> for U128 { type Output = U128; #[verifier::external_body] fn add(self, o: i32) -> (r: U128) ensures r.uv() == self.uv() + (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for U128 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: i32) -> bool { true } open spec fn add_spec(self, o: i32) -> U128 { arbitrary() } }
impl core::ops::Sub<U128> for U128 { type Output = U128; #[verifier::external_body] fn sub(self, o: U128) -> (r: U128) ensures r.uv() == self.uv() - o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<U128> for U128 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: U128) -> bool { true } open spec fn sub_spec(self, o: U128) -> U128 { arbitrary() } }
impl core::ops::Sub<i32> for U128 { type Output = U128; #[verifier::external_body] fn sub(self, o: i32) -> (r: U128) ensures r.uv() == self.uv() - (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for U128 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: i32) -> bool { true } open spec fn sub_spec(self, o: i32) -> U128 { arbitrary() } }
impl core::ops::Mul<U128> for U128 { type Output = U128; #[verifier::external_body] fn mul(self, o: U128) -> (r: U128) ensures r.uv() == self.uv() * o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<U128> for U128 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: U128) -> bool { true } open spec fn mul_spec(self, o: U128) -> U128 { arbitrary() } }
impl core::ops::Mul<i32> for U128 { type Output = U128; #[verifier::external_body] fn mul(self, o: i32) -> (r: U128) ensures r.uv() == self.uv() * (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for U128 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: i32) -> bool { true } open spec fn mul_spec(self, o: i32) -> U128 { arbitrary() } }
impl core::ops::Div<U128> for U128 { type Output = U128; #[verifier::external_body] fn div(self, o: U128) -> (r: U128) ensures o.uv() != 0, r.uv() == self.uv() / o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<U128> for U128 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: U128) -> bool { true } open spec fn div_spec(self, o: U128) -> U128 { arbitrary() } }
impl core::ops::Div<i32> for U128 { type Output = U128; #[verifier::external_body] fn div(self, o: i32) -> (r: U128) ensures (o as int) != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i32> for U128 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: i32) -> bool { true } open spec fn div_spec(self, o: i32) -> U128 { arbitrary() } }
impl core::ops::Shr<i32> for U128 { type Output = U128; #[verifier::external_body] fn shr(self, o: i32) -> (r: U128) ensures 0 <= o ==> r.uv() == self.uv() / ipow(2, o as nat) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for U128 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, o: i32) -> bool { true } open spec fn shr_spec(self, o: i32) -> U128 { arbitrary() } }
impl VFrom<u8> for U128 { #[verifier::external_body] fn vfrom(v: u8) -> (r: U128) { unimplemented!() } }
impl VTryFrom<u8> for U128 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U128> for u8 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u16> for U128 { #[verifier::external_body] fn vfrom(v: u16) -> (r: U128) { unimplemented!() } }
impl VTryFrom<u16> for U128 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U128> for u16 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u32> for U128 { #[verifier::external_body] fn vfrom(v: u32) -> (r: U128) { unimplemented!() } }
impl VTryFrom<u32> for U128 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U128> for u32 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u64> for U128 { #[verifier::external_body] fn vfrom(v: u64) -> (r: U128) { unimplemented!() } }
impl VTryFrom<u64> for U128 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U128> for u64 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u128> for U128 { #[verifier::external_body] fn vfrom(v: u128) -> (r: U128) { unimplemented!() } }
impl VTryFrom<u128> for U128 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U128> for u128 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<i32> for U128 { #[verifier::external_body] fn vfrom(v: i32) -> (r: U128) { unimplemented!() } }
impl VTryFrom<i32> for U128 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U128> for U128 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U128> for U192 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U128> for U256 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U128> for U320 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U128> for U384 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U128> for U448 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U128> for U512 { #[verifier::external_body] fn vtry_from(v: U128) -> (r: Result<U512, VString>) { unimplemented!() } }

#[verifier::opaque]
pub open spec fn u192_val(a: [u64; 3]) -> int { ((a[0] as int) + 18446744073709551616 * ((a[1] as int) + 18446744073709551616 * (a[2] as int))) }
#[derive(Clone, Copy)]
pub struct U192(pub [u64; 3]);
impl UVal for U192 {
    open spec fn uv(self) -> int { u192_val(self.0) }
    open spec fn umin() -> int { 0 }
    open spec fn umax() -> int { ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) }
    proof fn uv_range(self) { reveal(u192_val); }
}
pub broadcast proof fn u192_range(x: U192) ensures 0 <= #[trigger] x.uv() <= ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) { reveal(u192_val); }
impl U192 {
    #[verifier::external_body] pub exec const MAX: U192 ensures U192::MAX.uv() == ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) { U192([u64::MAX; 3]) }
    #[verifier::external_body] pub fn max_value() -> (r: U192) ensures r.uv() == ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: U192) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U192) ensures r.uv() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: U192) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.uv() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: U192) -> (r: Option<U192>) ensures match r { Some(x) => x.uv() == self.uv() + o.uv(), None => self.uv() + o.uv() > ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: U192) -> (r: Option<U192>) ensures match r { Some(x) => x.uv() == self.uv() - o.uv(), None => self.uv() < o.uv() } { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: U192) -> (r: Option<U192>) ensures match r { Some(x) => x.uv() == self.uv() * o.uv(), None => self.uv() * o.uv() > ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_div(self, o: U192) -> (r: Option<U192>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() / o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: U192) -> (r: Option<U192>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() % o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_pow(self, o: U192) -> (r: Option<U192>) ensures match r { Some(x) => x.uv() == ipow(self.uv(), o.uv() as nat), None => ipow(self.uv(), o.uv() as nat) > ((18446744073709551616 * (18446744073709551616 * 18446744073709551616)) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r == self.0[0] { unimplemented!() }
    #[verifier::external_body] pub fn low_u128(&self) -> (r: u128) ensures r as int == self.0[0] as int + (self.0[1] as int) * 18446744073709551616 { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r as int == self.uv() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as int == self.uv() { unimplemented!() }
}

impl PartialEq for U192 { #[verifier::external_body] fn eq(&self, o: &U192) -> (r: bool) ensures r == (self.uv() == o.uv()), r == (*self == *o) { unimplemented!() } }
impl Eq for U192 {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for U192 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U192) -> bool { *self == *o } }
impl PartialOrd for U192 { #[verifier::external_body] fn partial_cmp(&self, o: &U192) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U192 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U192) -> Option<core::cmp::Ordering> { if self.uv() < o.uv() { Some(core::cmp::Ordering::Less) } else if self.uv() > o.uv() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl core::ops::Add<U192> for U192 { type Output = U192; #[verifier::external_body] fn add(self, o: U192) -> (r: U192) ensures r.uv() == self.uv() + o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<U192> for U192 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: U192) -> bool { true } open spec fn add_spec(self, o: U192) -> U192 { arbitrary() } }
impl core::ops::Add<i32> for U192 { type Output = U192; #[verifier::external_body] fn add(self, o: i32) -> (r: U192) ensures r.uv() == self.uv() + (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for U192 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: i32) -> bool { true } open spec fn add_spec(self, o: i32) -> U192 { arbitrary() } }
impl core::ops::Sub<U192> for U192 { type Output = U192; #[verifier::external_body] fn sub(self, o: U192) -> (r: U192) ensures r.uv() == self.uv() - o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<U192> for U192 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: U192) -> bool { true } open spec fn sub_spec(self, o: U192) -> U192 { arbitrary() } }
impl core::ops::Sub<i32> for U192 { type Output = U192; #[verifier::external_body] fn sub(self, o: i32) -> (r: U192) ensures r.uv() == self.uv() - (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for U192 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: i32) -> bool { true } open spec fn sub_spec(self, o: i32) -> U192 { arbitrary() } }
impl core::ops::Mul<U192> for U192 { type Output = U192; #[verifier::external_body] fn mul(self, o: U192) -> (r: U192) ensures r.uv() == self.uv() * o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<U192> for U192 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: U192) -> bool { true } open spec fn mul_spec(self, o: U192) -> U192 { arbitrary() } }
impl core::ops::Mul<i32> for U192 { type Output = U192; #[verifier::external_body] fn mul(self, o: i32) -> (r: U192) ensures r.uv() == self.uv() * (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for U192 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: i32) -> bool { true } open spec fn mul_spec(self, o: i32) -> U192 { arbitrary() } }
impl core::ops::Div<U192> for U192 { type Output = U192; #[verifier::external_body] fn div(self, o: U192) -> (r: U192) ensures o.uv() != 0, r.uv() == self.uv() / o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<U192> for U192 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: U192) -> bool { true } open spec fn div_spec(self, o: U192) -> U192 { arbitrary() } }
impl core::ops::Div<i32> for U192 { type Output = U192; #[verifier::external_body] fn div(self, o: i32) -> (r: U192) ensures (o as int) != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i32> for U192 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: i32) -> bool { true } open spec fn div_spec(self, o: i32) -> U192 { arbitrary() } }
impl core::ops::Shr<i32> for U192 { type Output = U192; #[verifier::external_body] fn shr(self, o: i32) -> (r: U192) ensures 0 <= o ==> r.uv() == self.uv() / ipow(2, o as nat) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for U192 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, o: i32) -> bool { true } open spec fn shr_spec(self, o: i32) -> U192 { arbitrary() } }
impl VFrom<u8> for U192 { #[verifier::external_body] fn vfrom(v: u8) -> (r: U192) { unimplemented!() } }
impl VTryFrom<u8> for U192 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U192> for u8 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u16> for U192 { #[verifier::external_body] fn vfrom(v: u16) -> (r: U192) { unimplemented!() } }
impl VTryFrom<u16> for U192 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U192> for u16 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u32> for U192 { #[verifier::external_body] fn vfrom(v: u32) -> (r: U192) { unimplemented!() } }
impl VTryFrom<u32> for U192 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U192> for u32 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u64> for U192 { #[verifier::external_body] fn vfrom(v: u64) -> (r: U192) { unimplemented!() } }
impl VTryFrom<u64> for U192 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U192> for u64 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u128> for U192 { #[verifier::external_body] fn vfrom(v: u128) -> (r: U192) { unimplemented!() } }
impl VTryFrom<u128> for U192 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U192> for u128 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<i32> for U192 { #[verifier::external_body] fn vfrom(v: i32) -> (r: U192) { unimplemented!() } }
impl VTryFrom<i32> for U192 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U192> for U128 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U192> for U192 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U192> for U256 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U192> for U320 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U192> for U384 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U192> for U448 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U192> for U512 { #[verifier::external_body] fn vtry_from(v: U192) -> (r: Result<U512, VString>) { unimplemented!() } }

#[verifier::opaque]
pub open spec fn u256_val(a: [u64; 4]) -> int { ((a[0] as int) + 18446744073709551616 * ((a[1] as int) + 18446744073709551616 * ((a[2] as int) + 18446744073709551616 * (a[3] as int)))) }
#[derive(Clone, Copy)]
pub struct U256(pub [u64; 4]);
impl UVal for U256 {
    open spec fn uv(self) -> int { u256_val(self.0) }
    open spec fn umin() -> int { 0 }
    open spec fn umax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) }
    proof fn uv_range(self) { reveal(u256_val); }
}
pub broadcast proof fn u256_range(x: U256) ensures 0 <= #[trigger] x.uv() <= ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) { reveal(u256_val); }
impl U256 {
    #[verifier::external_body] pub exec const MAX: U256 ensures U256::MAX.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) { U256([u64::MAX; 4]) }
    #[verifier::external_body] pub fn max_value() -> (r: U256) ensures r.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: U256) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U256) ensures r.uv() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: U256) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.uv() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: U256) -> (r: Option<U256>) ensures match r { Some(x) => x.uv() == self.uv() + o.uv(), None => self.uv() + o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: U256) -> (r: Option<U256>) ensures match r { Some(x) => x.uv() == self.uv() - o.uv(), None => self.uv() < o.uv() } { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: U256) -> (r: Option<U256>) ensures match r { Some(x) => x.uv() == self.uv() * o.uv(), None => self.uv() * o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_div(self, o: U256) -> (r: Option<U256>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() / o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: U256) -> (r: Option<U256>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() % o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_pow(self, o: U256) -> (r: Option<U256>) ensures match r { Some(x) => x.uv() == ipow(self.uv(), o.uv() as nat), None => ipow(self.uv(), o.uv() as nat) > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r == self.0[0] { unimplemented!() }
    #[verifier::external_body] pub fn low_u128(&self) -> (r: u128) ensures r as int == self.0[0] as int + (self.0[1] as int) * 18446744073709551616 { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r as int == self.uv() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as int == self.uv() { unimplemented!() }
}

impl PartialEq for U256 { #[verifier::external_body] fn eq(&self, o: &U256) -> (r: bool) ensures r == (self.uv() == o.uv()), r == (*self == *o) { unimplemented!() } }
impl Eq for U256 {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for U256 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U256) -> bool { *self == *o } }
impl PartialOrd for U256 { #[verifier::external_body] fn partial_cmp(&self, o: &U256) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U256 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U256) -> Option<core::cmp::Ordering> { if self.uv() < o.uv() { Some(core::cmp::Ordering::Less) } else if self.uv() > o.uv() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl core::ops::Add<U256> for U256 { type Output = U256; #[verifier::external_body] fn add(self, o: U256) -> (r: U256) ensures r.uv() == self.uv() + o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<U256> for U256 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: U256) -> bool { true } open spec fn add_spec(self, o: U256) -> U256 { arbitrary() } }
impl core::ops::Add<i32> for U256 { type Output = U256; #[verifier::external_body] fn add(self, o: i32) -> (r: U256) ensures r.uv() == self.uv() + (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for U256 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: i32) -> bool { true } open spec fn add_spec(self, o: i32) -> U256 { arbitrary() } }
impl core::ops::Sub<U256> for U256 { type Output = U256; #[verifier::external_body] fn sub(self, o: U256) -> (r: U256) ensures r.uv() == self.uv() - o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<U256> for U256 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: U256) -> bool { true } open spec fn sub_spec(self, o: U256) -> U256 { arbitrary() } }
impl core::ops::Sub<i32> for U256 { type Output = U256; #[verifier::external_body] fn sub(self, o: i32) -> (r: U256) ensures r.uv() == self.uv() - (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for U256 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: i32) -> bool { true } open spec fn sub_spec(self, o: i32) -> U256 { arbitrary() } }
impl core::ops::Mul<U256> for U256 { type Output = U256; #[verifier::external_body] fn mul(self, o: U256) -> (r: U256) ensures r.uv() == self.uv() * o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<U256> for U256 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: U256) -> bool { true } open spec fn mul_spec(self, o: U256) -> U256 { arbitrary() } }
impl core::ops::Mul<i32> for U256 { type Output = U256; #[verifier::external_body] fn mul(self, o: i32) -> (r: U256) ensures r.uv() == self.uv() * (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for U256 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: i32) -> bool { true } open spec fn mul_spec(self, o: i32) -> U256 { arbitrary() } }
impl core::ops::Div<U256> for U256 { type Output = U256; #[verifier::external_body] fn div(self, o: U256) -> (r: U256) ensures o.uv() != 0, r.uv() == self.uv() / o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<U256> for U256 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: U256) -> bool { true } open spec fn div_spec(self, o: U256) -> U256 { arbitrary() } }
impl core::ops::Div<i32> for U256 { type Output = U256; #[verifier::external_body] fn div(self, o: i32) -> (r: U256) ensures (o as int) != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i32> for U256 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: i32) -> bool { true } open spec fn div_spec(self, o: i32) -> U256 { arbitrary() } }
impl core::ops::Div<u128> for U256 { type Output = U256; #[verifier::external_body] fn div(self, o: u128) -> (r: U256) ensures (o as int) != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<u128> for U256 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: u128) -> bool { true } open spec fn div_spec(self, o: u128) -> U256 { arbitrary() } }
impl core::ops::Shr<i32> for U256 { type Output = U256; #[verifier::external_body] fn shr(self, o: i32) -> (r: U256) ensures 0 <= o ==> r.uv() == self.uv() / ipow(2, o as nat) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for U256 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, o: i32) -> bool { true } open spec fn shr_spec(self, o: i32) -> U256 { arbitrary() } }
impl VFrom<u8> for U256 { #[verifier::external_body] fn vfrom(v: u8) -> (r: U256) { unimplemented!() } }
impl VTryFrom<u8> for U256 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U256> for u8 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u16> for U256 { #[verifier::external_body] fn vfrom(v: u16) -> (r: U256) { unimplemented!() } }
impl VTryFrom<u16> for U256 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U256> for u16 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u32> for U256 { #[verifier::external_body] fn vfrom(v: u32) -> (r: U256) { unimplemented!() } }
impl VTryFrom<u32> for U256 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U256> for u32 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u64> for U256 { #[verifier::external_body] fn vfrom(v: u64) -> (r: U256) { unimplemented!() } }
impl VTryFrom<u64> for U256 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U256> for u64 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u128> for U256 { #[verifier::external_body] fn vfrom(v: u128) -> (r: U256) { unimplemented!() } }
impl VTryFrom<u128> for U256 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U256> for u128 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<i32> for U256 { #[verifier::external_body] fn vfrom(v: i32) -> (r: U256) { unimplemented!() } }
impl VTryFrom<i32> for U256 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U256> for U128 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U256> for U192 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U256> for U256 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U256> for U320 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U256> for U384 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U256> for U448 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U256> for U512 { #[verifier::external_body] fn vtry_from(v: U256) -> (r: Result<U512, VString>) { unimplemented!() } }

#[verifier::opaque]
pub open spec fn u320_val(a: [u64; 5]) -> int { ((a[0] as int) + 18446744073709551616 * ((a[1] as int) + 18446744073709551616 * ((a[2] as int) + 18446744073709551616 * ((a[3] as int) + 18446744073709551616 * (a[4] as int))))) }
#[derive(Clone, Copy)]
pub struct U320(pub [u64; 5]);
impl UVal for U320 {
    open spec fn uv(self) -> int { u320_val(self.0) }
    open spec fn umin() -> int { 0 }
    open spec fn umax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))) - 1) }
    proof fn uv_range(self) { reveal(u320_val); }
}
pub broadcast proof fn u320_range(x: U320) ensures 0 <= #[trigger] x.uv() <= ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))) - 1) { reveal(u320_val); }
impl U320 {
    #[verifier::external_body] pub exec const MAX: U320 ensures U320::MAX.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))) - 1) { U320([u64::MAX; 5]) }
    #[verifier::external_body] pub fn max_value() -> (r: U320) ensures r.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: U320) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U320) ensures r.uv() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: U320) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.uv() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: U320) -> (r: Option<U320>) ensures match r { Some(x) => x.uv() == self.uv() + o.uv(), None => self.uv() + o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: U320) -> (r: Option<U320>) ensures match r { Some(x) => x.uv() == self.uv() - o.uv(), None => self.uv() < o.uv() } { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: U320) -> (r: Option<U320>) ensures match r { Some(x) => x.uv() == self.uv() * o.uv(), None => self.uv() * o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_div(self, o: U320) -> (r: Option<U320>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() / o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: U320) -> (r: Option<U320>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() % o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_pow(self, o: U320) -> (r: Option<U320>) ensures match r { Some(x) => x.uv() == ipow(self.uv(), o.uv() as nat), None => ipow(self.uv(), o.uv() as nat) > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r == self.0[0] { unimplemented!() }
    #[verifier::external_body] pub fn low_u128(&self) -> (r: u128) ensures r as int == self.0[0] as int + (self.0[1] as int) * 18446744073709551616 { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r as int == self.uv() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as int == self.uv() { unimplemented!() }
}

impl PartialEq for U320 { #[verifier::external_body] fn eq(&self, o: &U320) -> (r: bool) ensures r == (self.uv() == o.uv()), r == (*self == *o) { unimplemented!() } }
impl Eq for U320 {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for U320 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U320) -> bool { *self == *o } }
impl PartialOrd for U320 { #[verifier::external_body] fn partial_cmp(&self, o: &U320) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U320 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U320) -> Option<core::cmp::Ordering> { if self.uv() < o.uv() { Some(core::cmp::Ordering::Less) } else if self.uv() > o.uv() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl core::ops::Add<U320> for U320 { type Output = U320; #[verifier::external_body] fn add(self, o: U320) -> (r: U320) ensures r.uv() == self.uv() + o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<U320> for U320 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: U320) -> bool { true } open spec fn add_spec(self, o: U320) -> U320 { arbitrary() } }
impl core::ops::Add<i32> for U320 { type Output = U320; #[verifier::external_body] fn add(self, o: i32) -> (r: U320) ensures r.uv() == self.uv() + (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for U320 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: i32) -> bool { true } open spec fn add_spec(self, o: i32) -> U320 { arbitrary() } }
impl core::ops::Sub<U320> for U320 { type Output = U320; #[verifier::external_body] fn sub(self, o: U320) -> (r: U320) ensures r.uv() == self.uv() - o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<U320> for U320 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: U320) -> bool { true } open spec fn sub_spec(self, o: U320) -> U320 { arbitrary() } }
impl core::ops::Sub<i32> for U320 { type Output = U320; #[verifier::external_body] fn sub(self, o: i32) -> (r: U320) ensures r.uv() == self.uv() - (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for U320 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: i32) -> bool { true } open spec fn sub_spec(self, o: i32) -> U320 { arbitrary() } }
impl core::ops::Mul<U320> for U320 { type Output = U320; #[verifier::external_body] fn mul(self, o: U320) -> (r: U320) ensures r.uv() == self.uv() * o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<U320> for U320 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: U320) -> bool { true } open spec fn mul_spec(self, o: U320) -> U320 { arbitrary() } }
impl core::ops::Mul<i32> for U320 { type Output = U320; #[verifier::external_body] fn mul(self, o: i32) -> (r: U320) ensures r.uv() == self.uv() * (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for U320 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: i32) -> bool { true } open spec fn mul_spec(self, o: i32) -> U320 { arbitrary() } }
impl core::ops::Div<U320> for U320 { type Output = U320; #[verifier::external_body] fn div(self, o: U320) -> (r: U320) ensures o.uv() != 0, r.uv() == self.uv() / o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<U320> for U320 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: U320) -> bool { true } open spec fn div_spec(self, o: U320) -> U320 { arbitrary() } }
impl core::ops::Div<i32> for U320 { type Output = U320; #[verifier::external_body] fn div(self, o: i32) -> (r: U320) ensures (o as int) != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i32> for U320 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: i32) -> bool { true } open spec fn div_spec(self, o: i32) -> U320 { arbitrary() } }
impl core::ops::Shr<i32> for U320 { type Output = U320; #[verifier::external_body] fn shr(self, o: i32) -> (r: U320) ensures 0 <= o ==> r.uv() == self.uv() / ipow(2, o as nat) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for U320 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, o: i32) -> bool { true } open spec fn shr_spec(self, o: i32) -> U320 { arbitrary() } }
impl VFrom<u8> for U320 { #[verifier::external_body] fn vfrom(v: u8) -> (r: U320) { unimplemented!() } }
impl VTryFrom<u8> for U320 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U320> for u8 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u16> for U320 { #[verifier::external_body] fn vfrom(v: u16) -> (r: U320) { unimplemented!() } }
impl VTryFrom<u16> for U320 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U320> for u16 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u32> for U320 { #[verifier::external_body] fn vfrom(v: u32) -> (r: U320) { unimplemented!() } }
impl VTryFrom<u32> for U320 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U320> for u32 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u64> for U320 { #[verifier::external_body] fn vfrom(v: u64) -> (r: U320) { unimplemented!() } }
impl VTryFrom<u64> for U320 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U320> for u64 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u128> for U320 { #[verifier::external_body] fn vfrom(v: u128) -> (r: U320) { unimplemented!() } }
impl VTryFrom<u128> for U320 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U320> for u128 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<i32> for U320 { #[verifier::external_body] fn vfrom(v: i32) -> (r: U320) { unimplemented!() } }
impl VTryFrom<i32> for U320 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U320> for U128 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U320> for U192 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U320> for U256 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U320> for U320 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U320> for U384 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U320> for U448 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U320> for U512 { #[verifier::external_body] fn vtry_from(v: U320) -> (r: Result<U512, VString>) { unimplemented!() } }

#[verifier::opaque]
pub open spec fn u384_val(a: [u64; 6]) -> int { ((a[0] as int) + 18446744073709551616 * ((a[1] as int) + 18446744073709551616 * ((a[2] as int) + 18446744073709551616 * ((a[3] as int) + 18446744073709551616 * ((a[4] as int) + 18446744073709551616 * (a[5] as int)))))) }
#[derive(Clone, Copy)]
pub struct U384(pub [u64; 6]);
impl UVal for U384 {
    open spec fn uv(self) -> int { u384_val(self.0) }
    open spec fn umin() -> int { 0 }
    open spec fn umax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) }
    proof fn uv_range(self) { reveal(u384_val); }
}
pub broadcast proof fn u384_range(x: U384) ensures 0 <= #[trigger] x.uv() <= ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) { reveal(u384_val); }
impl U384 {
    #[verifier::external_body] pub exec const MAX: U384 ensures U384::MAX.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) { U384([u64::MAX; 6]) }
    #[verifier::external_body] pub fn max_value() -> (r: U384) ensures r.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: U384) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U384) ensures r.uv() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: U384) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.uv() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: U384) -> (r: Option<U384>) ensures match r { Some(x) => x.uv() == self.uv() + o.uv(), None => self.uv() + o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: U384) -> (r: Option<U384>) ensures match r { Some(x) => x.uv() == self.uv() - o.uv(), None => self.uv() < o.uv() } { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: U384) -> (r: Option<U384>) ensures match r { Some(x) => x.uv() == self.uv() * o.uv(), None => self.uv() * o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_div(self, o: U384) -> (r: Option<U384>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() / o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: U384) -> (r: Option<U384>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() % o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_pow(self, o: U384) -> (r: Option<U384>) ensures match r { Some(x) => x.uv() == ipow(self.uv(), o.uv() as nat), None => ipow(self.uv(), o.uv() as nat) > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r == self.0[0] { unimplemented!() }
    #[verifier::external_body] pub fn low_u128(&self) -> (r: u128) ensures r as int == self.0[0] as int + (self.0[1] as int) * 18446744073709551616 { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r as int == self.uv() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as int == self.uv() { unimplemented!() }
}

impl PartialEq for U384 { #[verifier::external_body] fn eq(&self, o: &U384) -> (r: bool) ensures r == (self.uv() == o.uv()), r == (*self == *o) { unimplemented!() } }
impl Eq for U384 {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for U384 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U384) -> bool { *self == *o } }
impl PartialOrd for U384 { #[verifier::external_body] fn partial_cmp(&self, o: &U384) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U384 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U384) -> Option<core::cmp::Ordering> { if self.uv() < o.uv() { Some(core::cmp::Ordering::Less) } else if self.uv() > o.uv() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl core::ops::Add<U384> for U384 { type Output = U384; #[verifier::external_body] fn add(self, o: U384) -> (r: U384) ensures r.uv() == self.uv() + o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<U384> for U384 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: U384) -> bool { true } open spec fn add_spec(self, o: U384) -> U384 { arbitrary() } }
impl core::ops::Add<i32> for U384 { type Output = U384; #[verifier::external_body] fn add(self, o: i32) -> (r: U384) ensures r.uv() == self.uv() + (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for U384 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: i32) -> bool { true } open spec fn add_spec(self, o: i32) -> U384 { arbitrary() } }
impl core::ops::Sub<U384> for U384 { type Output = U384; #[verifier::external_body] fn sub(self, o: U384) -> (r: U384) ensures r.uv() == self.uv() - o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<U384> for U384 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: U384) -> bool { true } open spec fn sub_spec(self, o: U384) -> U384 { arbitrary() } }
impl core::ops::Sub<i32> for U384 { type Output = U384; #[verifier::external_body] fn sub(self, o: i32) -> (r: U384) ensures r.uv() == self.uv() - (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for U384 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: i32) -> bool { true } open spec fn sub_spec(self, o: i32) -> U384 { arbitrary() } }
impl core::ops::Mul<U384> for U384 { type Output = U384; #[verifier::external_body] fn mul(self, o: U384) -> (r: U384) ensures r.uv() == self.uv() * o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<U384> for U384 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: U384) -> bool { true } open spec fn mul_spec(self, o: U384) -> U384 { arbitrary() } }
impl core::ops::Mul<i32> for U384 { type Output = U384; #[verifier::external_body] fn mul(self, o: i32) -> (r: U384) ensures r.uv() == self.uv() * (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for U384 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: i32) -> bool { true } open spec fn mul_spec(self, o: i32) -> U384 { arbitrary() } }
impl core::ops::Div<U384> for U384 { type Output = U384; #[verifier::external_body] fn div(self, o: U384) -> (r: U384) ensures o.uv() != 0, r.uv() == self.uv() / o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<U384> for U384 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: U384) -> bool { true } open spec fn div_spec(self, o: U384) -> U384 { arbitrary() } }
impl core::ops::Div<i32> for U384 { type Output = U384; #[verifier::external_body] fn div(self, o: i32) -> (r: U384) ensures (o as int) != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i32> for U384 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: i32) -> bool { true } open spec fn div_spec(self, o: i32) -> U384 { arbitrary() } }
impl core::ops::Shr<i32> for U384 { type Output = U384; #[verifier::external_body] fn shr(self, o: i32) -> (r: U384) ensures 0 <= o ==> r.uv() == self.uv() / ipow(2, o as nat) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for U384 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, o: i32) -> bool { true } open spec fn shr_spec(self, o: i32) -> U384 { arbitrary() } }
impl VFrom<u8> for U384 { #[verifier::external_body] fn vfrom(v: u8) -> (r: U384) { unimplemented!() } }
impl VTryFrom<u8> for U384 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U384> for u8 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u16> for U384 { #[verifier::external_body] fn vfrom(v: u16) -> (r: U384) { unimplemented!() } }
impl VTryFrom<u16> for U384 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U384> for u16 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u32> for U384 { #[verifier::external_body] fn vfrom(v: u32) -> (r: U384) { unimplemented!() } }
impl VTryFrom<u32> for U384 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U384> for u32 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u64> for U384 { #[verifier::external_body] fn vfrom(v: u64) -> (r: U384) { unimplemented!() } }
impl VTryFrom<u64> for U384 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U384> for u64 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u128> for U384 { #[verifier::external_body] fn vfrom(v: u128) -> (r: U384) { unimplemented!() } }
impl VTryFrom<u128> for U384 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U384> for u128 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<i32> for U384 { #[verifier::external_body] fn vfrom(v: i32) -> (r: U384) { unimplemented!() } }
impl VTryFrom<i32> for U384 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U384> for U128 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U384> for U192 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U384> for U256 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U384> for U320 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U384> for U384 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U384> for U448 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U384> for U512 { #[verifier::external_body] fn vtry_from(v: U384) -> (r: Result<U512, VString>) { unimplemented!() } }

#[verifier::opaque]
pub open spec fn u448_val(a: [u64; 7]) -> int { ((a[0] as int) + 18446744073709551616 * ((a[1] as int) + 18446744073709551616 * ((a[2] as int) + 18446744073709551616 * ((a[3] as int) + 18446744073709551616 * ((a[4] as int) + 18446744073709551616 * ((a[5] as int) + 18446744073709551616 * (a[6] as int))))))) }
#[derive(Clone, Copy)]
pub struct U448(pub [u64; 7]);
impl UVal for U448 {
    open spec fn uv(self) -> int { u448_val(self.0) }
    open spec fn umin() -> int { 0 }
    open spec fn umax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))))) - 1) }
    proof fn uv_range(self) { reveal(u448_val); }
}
pub broadcast proof fn u448_range(x: U448) ensures 0 <= #[trigger] x.uv() <= ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))))) - 1) { reveal(u448_val); }
impl U448 {
    #[verifier::external_body] pub exec const MAX: U448 ensures U448::MAX.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))))) - 1) { U448([u64::MAX; 7]) }
    #[verifier::external_body] pub fn max_value() -> (r: U448) ensures r.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))))) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: U448) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U448) ensures r.uv() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: U448) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.uv() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: U448) -> (r: Option<U448>) ensures match r { Some(x) => x.uv() == self.uv() + o.uv(), None => self.uv() + o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: U448) -> (r: Option<U448>) ensures match r { Some(x) => x.uv() == self.uv() - o.uv(), None => self.uv() < o.uv() } { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: U448) -> (r: Option<U448>) ensures match r { Some(x) => x.uv() == self.uv() * o.uv(), None => self.uv() * o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_div(self, o: U448) -> (r: Option<U448>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() / o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: U448) -> (r: Option<U448>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() % o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_pow(self, o: U448) -> (r: Option<U448>) ensures match r { Some(x) => x.uv() == ipow(self.uv(), o.uv() as nat), None => ipow(self.uv(), o.uv() as nat) > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616)))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r == self.0[0] { unimplemented!() }
    #[verifier::external_body] pub fn low_u128(&self) -> (r: u128) ensures r as int == self.0[0] as int + (self.0[1] as int) * 18446744073709551616 { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r as int == self.uv() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as int == self.uv() { unimplemented!() }
}

impl PartialEq for U448 { #[verifier::external_body] fn eq(&self, o: &U448) -> (r: bool) ensures r == (self.uv() == o.uv()), r == (*self == *o) { unimplemented!() } }
impl Eq for U448 {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for U448 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U448) -> bool { *self == *o } }
impl PartialOrd for U448 { #[verifier::external_body] fn partial_cmp(&self, o: &U448) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U448 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U448) -> Option<core::cmp::Ordering> { if self.uv() < o.uv() { Some(core::cmp::Ordering::Less) } else if self.uv() > o.uv() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl core::ops::Add<U448> for U448 { type Output = U448; #[verifier::external_body] fn add(self, o: U448) -> (r: U448) ensures r.uv() == self.uv() + o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<U448> for U448 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: U448) -> bool { true } open spec fn add_spec(self, o: U448) -> U448 { arbitrary() } }
impl core::ops::Add<i32> for U448 { type Output = U448; #[verifier::external_body] fn add(self, o: i32) -> (r: U448) ensures r.uv() == self.uv() + (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for U448 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: i32) -> bool { true } open spec fn add_spec(self, o: i32) -> U448 { arbitrary() } }
impl core::ops::Sub<U448> for U448 { type Output = U448; #[verifier::external_body] fn sub(self, o: U448) -> (r: U448) ensures r.uv() == self.uv() - o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<U448> for U448 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: U448) -> bool { true } open spec fn sub_spec(self, o: U448) -> U448 { arbitrary() } }
impl core::ops::Sub<i32> for U448 { type Output = U448; #[verifier::external_body] fn sub(self, o: i32) -> (r: U448) ensures r.uv() == self.uv() - (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for U448 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: i32) -> bool { true } open spec fn sub_spec(self, o: i32) -> U448 { arbitrary() } }
impl core::ops::Mul<U448> for U448 { type Output = U448; #[verifier::external_body] fn mul(self, o: U448) -> (r: U448) ensures r.uv() == self.uv() * o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<U448> for U448 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: U448) -> bool { true } open spec fn mul_spec(self, o: U448) -> U448 { arbitrary() } }
impl core::ops::Mul<i32> for U448 { type Output = U448; #[verifier::external_body] fn mul(self, o: i32) -> (r: U448) ensures r.uv() == self.uv() * (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for U448 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: i32) -> bool { true } open spec fn mul_spec(self, o: i32) -> U448 { arbitrary() } }
impl core::ops::Div<U448> for U448 { type Output = U448; #[verifier::external_body] fn div(self, o: U448) -> (r: U448) ensures o.uv() != 0, r.uv() == self.uv() / o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<U448> for U448 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: U448) -> bool { true } open spec fn div_spec(self, o: U448) -> U448 { arbitrary() } }
impl core::ops::Div<i32> for U448 { type Output = U448; #[verifier::external_body] fn div(self, o: i32) -> (r: U448) ensures (o as int) != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i32> for U448 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: i32) -> bool { true } open spec fn div_spec(self, o: i32) -> U448 { arbitrary() } }
impl core::ops::Shr<i32> for U448 { type Output = U448; #[verifier::external_body] fn shr(self, o: i32) -> (r: U448) ensures 0 <= o ==> r.uv() == self.uv() / ipow(2, o as nat) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for U448 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, o: i32) -> bool { true } open spec fn shr_spec(self, o: i32) -> U448 { arbitrary() } }
impl VFrom<u8> for U448 { #[verifier::external_body] fn vfrom(v: u8) -> (r: U448) { unimplemented!() } }
impl VTryFrom<u8> for U448 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U448> for u8 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u16> for U448 { #[verifier::external_body] fn vfrom(v: u16) -> (r: U448) { unimplemented!() } }
impl VTryFrom<u16> for U448 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U448> for u16 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u32> for U448 { #[verifier::external_body] fn vfrom(v: u32) -> (r: U448) { unimplemented!() } }
impl VTryFrom<u32> for U448 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U448> for u32 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u64> for U448 { #[verifier::external_body] fn vfrom(v: u64) -> (r: U448) { unimplemented!() } }
impl VTryFrom<u64> for U448 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U448> for u64 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u128> for U448 { #[verifier::external_body] fn vfrom(v: u128) -> (r: U448) { unimplemented!() } }
impl VTryFrom<u128> for U448 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U448> for u128 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<i32> for U448 { #[verifier::external_body] fn vfrom(v: i32) -> (r: U448) { unimplemented!() } }
impl VTryFrom<i32> for U448 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U448> for U128 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U448> for U192 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U448> for U256 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U448> for U320 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U448> for U384 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U448> for U448 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U448> for U512 { #[verifier::external_body] fn vtry_from(v: U448) -> (r: Result<U512, VString>) { unimplemented!() } }

#[verifier::opaque]
pub open spec fn u512_val(a: [u64; 8]) -> int { ((a[0] as int) + 18446744073709551616 * ((a[1] as int) + 18446744073709551616 * ((a[2] as int) + 18446744073709551616 * ((a[3] as int) + 18446744073709551616 * ((a[4] as int) + 18446744073709551616 * ((a[5] as int) + 18446744073709551616 * ((a[6] as int) + 18446744073709551616 * (a[7] as int)))))))) }
#[derive(Clone, Copy)]
pub struct U512(pub [u64; 8]);
impl UVal for U512 {
    open spec fn uv(self) -> int { u512_val(self.0) }
    open spec fn umin() -> int { 0 }
    open spec fn umax() -> int { ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) }
    proof fn uv_range(self) { reveal(u512_val); }
}
pub broadcast proof fn u512_range(x: U512) ensures 0 <= #[trigger] x.uv() <= ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) { reveal(u512_val); }
impl U512 {
    #[verifier::external_body] pub exec const MAX: U512 ensures U512::MAX.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) { U512([u64::MAX; 8]) }
    #[verifier::external_body] pub fn max_value() -> (r: U512) ensures r.uv() == ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: U512) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U512) ensures r.uv() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: U512) ensures r.uv() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.uv() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn checked_add(self, o: U512) -> (r: Option<U512>) ensures match r { Some(x) => x.uv() == self.uv() + o.uv(), None => self.uv() + o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_sub(self, o: U512) -> (r: Option<U512>) ensures match r { Some(x) => x.uv() == self.uv() - o.uv(), None => self.uv() < o.uv() } { unimplemented!() }
    #[verifier::external_body] pub fn checked_mul(self, o: U512) -> (r: Option<U512>) ensures match r { Some(x) => x.uv() == self.uv() * o.uv(), None => self.uv() * o.uv() > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn checked_div(self, o: U512) -> (r: Option<U512>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() / o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_rem(self, o: U512) -> (r: Option<U512>) ensures match r { Some(x) => o.uv() != 0 && x.uv() == self.uv() % o.uv(), None => o.uv() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn checked_pow(self, o: U512) -> (r: Option<U512>) ensures match r { Some(x) => x.uv() == ipow(self.uv(), o.uv() as nat), None => ipow(self.uv(), o.uv() as nat) > ((18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * (18446744073709551616 * 18446744073709551616))))))) - 1) } { unimplemented!() }
    #[verifier::external_body] pub fn low_u64(&self) -> (r: u64) ensures r == self.0[0] { unimplemented!() }
    #[verifier::external_body] pub fn low_u128(&self) -> (r: u128) ensures r as int == self.0[0] as int + (self.0[1] as int) * 18446744073709551616 { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r as int == self.uv() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r as int == self.uv() { unimplemented!() }
}

impl PartialEq for U512 { #[verifier::external_body] fn eq(&self, o: &U512) -> (r: bool) ensures r == (self.uv() == o.uv()), r == (*self == *o) { unimplemented!() } }
impl Eq for U512 {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for U512 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &U512) -> bool { *self == *o } }
impl PartialOrd for U512 { #[verifier::external_body] fn partial_cmp(&self, o: &U512) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U512 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &U512) -> Option<core::cmp::Ordering> { if self.uv() < o.uv() { Some(core::cmp::Ordering::Less) } else if self.uv() > o.uv() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl core::ops::Add<U512> for U512 { type Output = U512; #[verifier::external_body] fn add(self, o: U512) -> (r: U512) ensures r.uv() == self.uv() + o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<U512> for U512 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: U512) -> bool { true } open spec fn add_spec(self, o: U512) -> U512 { arbitrary() } }
impl core::ops::Add<i32> for U512 { type Output = U512; #[verifier::external_body] fn add(self, o: i32) -> (r: U512) ensures r.uv() == self.uv() + (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for U512 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: i32) -> bool { true } open spec fn add_spec(self, o: i32) -> U512 { arbitrary() } }
impl core::ops::Sub<U512> for U512 { type Output = U512; #[verifier::external_body] fn sub(self, o: U512) -> (r: U512) ensures r.uv() == self.uv() - o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<U512> for U512 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: U512) -> bool { true } open spec fn sub_spec(self, o: U512) -> U512 { arbitrary() } }
impl core::ops::Sub<i32> for U512 { type Output = U512; #[verifier::external_body] fn sub(self, o: i32) -> (r: U512) ensures r.uv() == self.uv() - (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for U512 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: i32) -> bool { true } open spec fn sub_spec(self, o: i32) -> U512 { arbitrary() } }
impl core::ops::Mul<U512> for U512 { type Output = U512; #[verifier::external_body] fn mul(self, o: U512) -> (r: U512) ensures r.uv() == self.uv() * o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<U512> for U512 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: U512) -> bool { true } open spec fn mul_spec(self, o: U512) -> U512 { arbitrary() } }
impl core::ops::Mul<i32> for U512 { type Output = U512; #[verifier::external_body] fn mul(self, o: i32) -> (r: U512) ensures r.uv() == self.uv() * (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for U512 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: i32) -> bool { true } open spec fn mul_spec(self, o: i32) -> U512 { arbitrary() } }
impl core::ops::Div<U512> for U512 { type Output = U512; #[verifier::external_body] fn div(self, o: U512) -> (r: U512) ensures o.uv() != 0, r.uv() == self.uv() / o.uv() { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<U512> for U512 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: U512) -> bool { true } open spec fn div_spec(self, o: U512) -> U512 { arbitrary() } }
impl core::ops::Div<i32> for U512 { type Output = U512; #[verifier::external_body] fn div(self, o: i32) -> (r: U512) ensures (o as int) != 0, r.uv() == self.uv() / (o as int) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<i32> for U512 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: i32) -> bool { true } open spec fn div_spec(self, o: i32) -> U512 { arbitrary() } }
impl core::ops::Shr<i32> for U512 { type Output = U512; #[verifier::external_body] fn shr(self, o: i32) -> (r: U512) ensures 0 <= o ==> r.uv() == self.uv() / ipow(2, o as nat) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for U512 { open spec fn obeys_shr_spec() -> bool { false } open spec fn shr_req(self, o: i32) -> bool { true } open spec fn shr_spec(self, o: i32) -> U512 { arbitrary() } }
impl VFrom<u8> for U512 { #[verifier::external_body] fn vfrom(v: u8) -> (r: U512) { unimplemented!() } }
impl VTryFrom<u8> for U512 { #[verifier::external_body] fn vtry_from(v: u8) -> (r: Result<U512, VString>) { unimplemented!() } }
impl VTryFrom<U512> for u8 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<u8, VString>) { unimplemented!() } }
impl VFrom<u16> for U512 { #[verifier::external_body] fn vfrom(v: u16) -> (r: U512) { unimplemented!() } }
impl VTryFrom<u16> for U512 { #[verifier::external_body] fn vtry_from(v: u16) -> (r: Result<U512, VString>) { unimplemented!() } }
impl VTryFrom<U512> for u16 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<u16, VString>) { unimplemented!() } }
impl VFrom<u32> for U512 { #[verifier::external_body] fn vfrom(v: u32) -> (r: U512) { unimplemented!() } }
impl VTryFrom<u32> for U512 { #[verifier::external_body] fn vtry_from(v: u32) -> (r: Result<U512, VString>) { unimplemented!() } }
impl VTryFrom<U512> for u32 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<u32, VString>) { unimplemented!() } }
impl VFrom<u64> for U512 { #[verifier::external_body] fn vfrom(v: u64) -> (r: U512) { unimplemented!() } }
impl VTryFrom<u64> for U512 { #[verifier::external_body] fn vtry_from(v: u64) -> (r: Result<U512, VString>) { unimplemented!() } }
impl VTryFrom<U512> for u64 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<u64, VString>) { unimplemented!() } }
impl VFrom<u128> for U512 { #[verifier::external_body] fn vfrom(v: u128) -> (r: U512) { unimplemented!() } }
impl VTryFrom<u128> for U512 { #[verifier::external_body] fn vtry_from(v: u128) -> (r: Result<U512, VString>) { unimplemented!() } }
impl VTryFrom<U512> for u128 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<u128, VString>) { unimplemented!() } }
impl VFrom<i32> for U512 { #[verifier::external_body] fn vfrom(v: i32) -> (r: U512) { unimplemented!() } }
impl VTryFrom<i32> for U512 { #[verifier::external_body] fn vtry_from(v: i32) -> (r: Result<U512, VString>) { unimplemented!() } }
impl VTryFrom<U512> for U128 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<U128, VString>) { unimplemented!() } }
impl VTryFrom<U512> for U192 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<U192, VString>) { unimplemented!() } }
impl VTryFrom<U512> for U256 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<U256, VString>) { unimplemented!() } }
impl VTryFrom<U512> for U320 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<U320, VString>) { unimplemented!() } }
impl VTryFrom<U512> for U384 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<U384, VString>) { unimplemented!() } }
impl VTryFrom<U512> for U448 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<U448, VString>) { unimplemented!() } }
impl VTryFrom<U512> for U512 { #[verifier::external_body] fn vtry_from(v: U512) -> (r: Result<U512, VString>) { unimplemented!() } }
pub broadcast group uint_ranges { u128_range, u192_range, u256_range, u320_range, u384_range, u448_range, u512_range }
}
pub use uint::*;
