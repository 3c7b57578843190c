//@include base.inc
//@include uint.inc
//@include ranges.inc
//@include dec_traits.inc
pub broadcast proof fn or_zero(a: u64, b: u64) ensures (#[trigger] (a | b) == 0) <==> (a == 0 && b == 0) { assert((a | b) == 0 <==> (a == 0 && b == 0)) by (bit_vector); }
impl<T: UVal> UintCast<T> for T { fn uint_cast(value: T) -> (r: T) { value } }
//@include casts_proved.inc
}
fn main() {}
