// ---- the traits of crate `decimal`, re-declared with contracts (the bodies below/elsewhere are the repository's)
/// a * b / c, opaque so that long chains of multiplications stay cheap
#[verifier::opaque] pub open spec fn muldiv(a: int, b: int, c: int) -> int { a * b / c }
pub open spec fn p10(n: int) -> int { ipow(10, n as nat) }
/// the value of `v` (an integer at scale `from`) at scale `to`, rounding down
pub open spec fn rescale(v: int, from: int, to: int) -> int { if to > from { v * p10(to - from) } else { v / p10(from - to) } }
pub open spec fn rescale_up(v: int, from: int, to: int) -> int { if to > from { v * p10(to - from) } else { (v + (p10(from - to) - 1)) / p10(from - to) } }

pub trait UintCast<T: UVal>: UVal { fn uint_cast(value: T) -> (r: Self) ensures r.uv() == value.uv(); }
pub trait UintCheckedCast<T: UVal>: UVal {
    fn uint_checked_cast(value: T) -> (r: Result<Self, VString>)
        ensures match r { Ok(x) => x.uv() == value.uv(), Err(_) => value.uv() > Self::umax() };
}
pub trait Decimal: Sized {
    type U: UVal;
    spec fn dv(&self) -> int;
    spec fn sone() -> int;
    spec fn sscale() -> int;
    spec fn dmax() -> int;
    fn get(&self) -> (r: Self::U) ensures r.uv() == self.dv();
    fn new(value: Self::U) -> (r: Self) ensures r.dv() == value.uv();
    fn max_instance() -> (r: Self) ensures r.dv() == Self::dmax();
    fn max_value() -> (r: Self::U) ensures r.uv() == Self::dmax();
    fn scale() -> (r: u8) ensures r as int == Self::sscale();
    fn checked_one() -> (r: Result<Self, VString>) ensures r.is_ok(), r->Ok_0.dv() == Self::sone();
    fn one() -> (r: Self) ensures r.dv() == Self::sone();
    fn checked_almost_one() -> (r: Result<Self, VString>) ensures r.is_ok(), r->Ok_0.dv() == Self::sone() - 1;
    fn almost_one() -> (r: Self) ensures r.dv() == Self::sone() - 1;
}
pub trait BigOps<T: Decimal>: Decimal {
    spec fn bmax() -> int;
    fn big_mul(self, rhs: T) -> (r: Self) ensures r.dv() == self.dv() * rhs.dv() / T::sone();
    fn big_mul_up(self, rhs: T) -> (r: Self) ensures r.dv() == (self.dv() * rhs.dv() + (T::sone() - 1)) / T::sone();
    fn big_div(self, rhs: T) -> (r: Self) ensures rhs.dv() != 0, r.dv() == self.dv() * T::sone() / rhs.dv();
    fn checked_big_div(self, rhs: T) -> (r: Result<Self, VString>)
        ensures match r { Ok(x) => rhs.dv() != 0 && x.dv() == self.dv() * T::sone() / rhs.dv(),
            Err(_) => rhs.dv() == 0 || self.dv() * T::sone() > Self::bmax() || self.dv() * T::sone() / rhs.dv() > Self::dmax() };
    fn big_div_up(self, rhs: T) -> (r: Self) ensures rhs.dv() != 0, r.dv() == (self.dv() * T::sone() + rhs.dv() - 1) / rhs.dv();
}
pub trait Others<T: Decimal>: Decimal {
    fn mul_up(self, rhs: T) -> (r: Self) ensures r.dv() == (self.dv() * rhs.dv() + (T::sone() - 1)) / T::sone();
    fn div_up(self, rhs: T) -> (r: Self) ensures rhs.dv() != 0, r.dv() == (self.dv() * T::sone() + (rhs.dv() - 1)) / rhs.dv();
}
pub trait OthersSameType: Decimal {
    fn sub_abs(self, rhs: Self) -> (r: Self) ensures r.dv() == (if self.dv() > rhs.dv() { self.dv() - rhs.dv() } else { rhs.dv() - self.dv() });
}
pub trait Factories<T: UVal>: Decimal {
    fn from_integer(integer: T) -> (r: Self) ensures r.dv() == integer.uv() * Self::sone();
    fn from_scale(integer: T, scale: u8) -> (r: Self) ensures r.dv() == rescale(integer.uv(), scale as int, Self::sscale());
    fn checked_from_scale(integer: T, scale: u8) -> (r: Result<Self, VString>)
        ensures match r { Ok(x) => x.dv() == rescale(integer.uv(), scale as int, Self::sscale()),
            Err(_) => p10(if scale as int > Self::sscale() { scale as int - Self::sscale() } else { Self::sscale() - scale as int }) > Self::dmax() || rescale(integer.uv(), scale as int, Self::sscale()) > Self::dmax() || p10(scale as int - Self::sscale()) == 0 };
    fn from_scale_up(integer: T, scale: u8) -> (r: Self) ensures r.dv() == rescale_up(integer.uv(), scale as int, Self::sscale());
}
pub trait FactoriesUnderlying: Decimal {
    fn from_integer_underlying(integer: <Self as Decimal>::U) -> (r: Self) ensures r.dv() == integer.uv() * Self::sone();
    fn from_scale_underlying(integer: <Self as Decimal>::U, scale: u8) -> (r: Self) ensures r.dv() == rescale(integer.uv(), scale as int, Self::sscale());
    fn checked_from_scale_underlying(integer: <Self as Decimal>::U, scale: u8) -> (r: Result<Self, VString>)
        ensures match r { Ok(x) => x.dv() == rescale(integer.uv(), scale as int, Self::sscale()),
            Err(_) => p10(if scale as int > Self::sscale() { scale as int - Self::sscale() } else { Self::sscale() - scale as int }) > Self::dmax() || rescale(integer.uv(), scale as int, Self::sscale()) > Self::dmax() || p10(scale as int - Self::sscale()) == 0 };
    fn from_scale_up_underlying(integer: <Self as Decimal>::U, scale: u8) -> (r: Self) ensures r.dv() == rescale_up(integer.uv(), scale as int, Self::sscale());
}
pub trait BetweenDecimals<T: Decimal>: Decimal {
    fn from_decimal(other: T) -> (r: Self) ensures r.dv() == rescale(other.dv(), T::sscale(), Self::sscale());
    fn checked_from_decimal(other: T) -> (r: Result<Self, VString>)
        ensures match r { Ok(x) => x.dv() == rescale(other.dv(), T::sscale(), Self::sscale()),
            Err(_) => p10(if T::sscale() > Self::sscale() { T::sscale() - Self::sscale() } else { Self::sscale() - T::sscale() }) > Self::dmax() || rescale(other.dv(), T::sscale(), Self::sscale()) > Self::dmax() || p10(T::sscale() - Self::sscale()) == 0 };
    fn from_decimal_up(other: T) -> (r: Self) ensures r.dv() == rescale_up(other.dv(), T::sscale(), Self::sscale());
}
pub trait ToValue<T: Decimal, B: UVal>: Decimal {
    fn big_mul_to_value(self, rhs: T) -> (r: B) ensures r.uv() == self.dv() * rhs.dv() / T::sone();
    fn big_mul_to_value_up(self, rhs: T) -> (r: B) ensures r.uv() == (self.dv() * rhs.dv() + (T::sone() - 1)) / T::sone();
}
pub trait FactoriesToValue<T: UVal, B: UVal>: Decimal {
    fn checked_from_scale_to_value(val: T, scale: u8) -> (r: Result<B, VString>)
        ensures match r { Ok(x) => x.uv() == rescale(val.uv(), scale as int, Self::sscale()), Err(_) => p10(if scale as int > Self::sscale() { scale as int - Self::sscale() } else { Self::sscale() - scale as int }) > u128::MAX };
}
pub trait BetweenDecimalsToValue<T: Decimal, B: UVal>: Decimal {
    fn checked_from_decimal_to_value(other: T) -> (r: Result<B, VString>)
        ensures match r { Ok(x) => x.uv() == rescale(other.dv(), T::sscale(), Self::sscale()), Err(_) => p10(if T::sscale() > Self::sscale() { T::sscale() - Self::sscale() } else { Self::sscale() - T::sscale() }) > u128::MAX };
}
pub trait ByNumber<B: UVal>: Decimal {
    spec fn nmax() -> int;
    fn big_div_by_number(self, rhs: B) -> (r: Self) ensures rhs.uv() != 0, r.dv() == self.dv() * Self::sone() / rhs.uv();
    fn big_div_by_number_up(self, rhs: B) -> (r: Self) ensures rhs.uv() != 0, r.dv() == (self.dv() * Self::sone() + (rhs.uv() - 1)) / rhs.uv();
    fn checked_big_div_by_number(self, rhs: B) -> (r: Result<Self, VString>)
        ensures match r { Ok(x) => rhs.uv() != 0 && x.dv() == self.dv() * Self::sone() / rhs.uv(),
            Err(_) => rhs.uv() == 0 || self.dv() * Self::sone() > B::umax() || self.dv() * Self::sone() / rhs.uv() > Self::dmax() };
    fn checked_big_div_by_number_up(self, rhs: B) -> (r: Result<Self, VString>)
        ensures match r { Ok(x) => rhs.uv() != 0 && x.dv() == (self.dv() * Self::sone() + (rhs.uv() - 1)) / rhs.uv(),
            Err(_) => rhs.uv() == 0 || self.dv() * Self::sone() + (rhs.uv() - 1) > B::umax() || (self.dv() * Self::sone() + (rhs.uv() - 1)) / rhs.uv() > Self::dmax() };
}
pub trait CheckedOps: Decimal {
    fn checked_add(self, rhs: Self) -> (r: Result<Self, VString>) ensures match r { Ok(x) => x.dv() == self.dv() + rhs.dv(), Err(_) => self.dv() + rhs.dv() > Self::dmax() };
    fn checked_sub(self, rhs: Self) -> (r: Result<Self, VString>) ensures match r { Ok(x) => x.dv() == self.dv() - rhs.dv(), Err(_) => self.dv() < rhs.dv() };
    fn checked_div(self, rhs: Self) -> (r: Result<Self, VString>) ensures match r { Ok(x) => rhs.dv() != 0 && x.dv() == self.dv() * Self::sone() / rhs.dv(), Err(_) => rhs.dv() == 0 || self.dv() * Self::sone() > Self::dmax() };
}
