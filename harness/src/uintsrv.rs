//! The big integers themselves, so that what units/uint.inc ASSUMES of them is tested against exact arithmetic.
use crate::mathsrv::{Args, R};
use decimal::*;
macro_rules! uop { ($t:ident, $a:expr) => {{ let a = $a; let op = a.s(); let s = |x: $t| Some(x.to_string()); match op {
    "MAX" => s($t::MAX), "max_value" => s($t::max_value()), "zero" => s($t::zero()), "one" => s($t::one()), "default" => s($t::default()),
    _ => { let x: $t = a.big(); match op {
        "limbs" => Some(x.0.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")), "is_zero" => Some(x.is_zero().to_string()), "as_u64" => Some(x.as_u64().to_string()), "low_u64" => Some(x.low_u64().to_string()),
        "as_u128" => Some(x.as_u128().to_string()), "low_u128" => Some(x.low_u128().to_string()),
        "try_u64" => u64::try_from(x).ok().map(|v| v.to_string()), "try_u128" => u128::try_from(x).ok().map(|v| v.to_string()),
        "shr" => { let k = a.i(); s(x >> k) } "shl" => { let k = a.i(); s(x << k) }
        "addi" => { let k = a.i(); s(x + k) } "subi" => { let k = a.i(); s(x - k) } "muli" => { let k = a.i(); s(x * k) } "divi" => { let k = a.i(); s(x / k) }
        "divu" => { let k: u128 = a.n(); s(x / k) }
        _ => { let y: $t = a.big(); match op {
            "add" => s(x + y), "sub" => s(x - y), "mul" => s(x * y), "div" => s(x / y), "rem" => s(x % y),
            "checked_add" => x.checked_add(y).and_then(s), "checked_sub" => x.checked_sub(y).and_then(s), "checked_mul" => x.checked_mul(y).and_then(s),
            "checked_div" => x.checked_div(y).and_then(s), "checked_rem" => x.checked_rem(y).and_then(s), "checked_pow" => x.checked_pow(y).and_then(s),
            "cmp" => Some(format!("{:?} {} {} {}", x.cmp(&y), x == y, x < y, x >= y)),
            z => panic!("op {z}") } } } }
} }} }
pub fn call(a: &mut Args) -> R { match a.s() {
    "U128" => uop!(U128, a), "U192" => uop!(U192, a), "U256" => uop!(U256, a), "U320" => uop!(U320, a),
    "U384" => uop!(U384, a), "U448" => uop!(U448, a), "U512" => uop!(U512, a), x => panic!("type {x}") } }
