impl<T: UVal> UintCast<T> for T { fn uint_cast(value: T) -> (r: T) { value } }
pub trait Conversion: Decimal {
//@fn calc/decimal/src/traits.rs Conversion::cast -> r bare
    ensures r.uv() == self.dv()
//@end
//@fn calc/decimal/src/traits.rs Conversion::checked_cast -> r bare
    ensures match r { Ok(x) => x.uv() == self.dv(), Err(_) => self.dv() > T::umax() }
//@end
//@fn calc/decimal/src/traits.rs Conversion::from_value -> r bare gen=R:UVal
    ensures r.uv() == from.uv()
//@end
//@fn calc/decimal/src/traits.rs Conversion::checked_from_value -> r bare gen=R:UVal
    ensures match r { Ok(x) => x.uv() == from.uv(), Err(_) => from.uv() > T::umax() }
//@end
}
