//! Line server over the pure functions of /repo: `name arg ..` -> `ok v ..` | `err` | `panic`.
use decimal::*;
use math::types::{fee_growth::*, fixed_point::*, liquidity::*, percentage::*, seconds_per_liquidity::*, sqrt_price::*, token_amount::*};
use math::*;
use contracts::*;
use contracts::logic::*;

pub struct Args<'a>(pub std::str::SplitWhitespace<'a>);
impl<'a> Args<'a> {
    pub fn s(&mut self) -> &'a str { self.0.next().expect("missing argument") }
    pub fn i(&mut self) -> i32 { self.s().parse().unwrap() }
    pub fn n<T: std::str::FromStr>(&mut self) -> T where T::Err: std::fmt::Debug { self.s().parse().unwrap() }
    pub fn b(&mut self) -> bool { self.s() == "1" }
    pub fn big<T: FromDec>(&mut self) -> T { T::from_dec(self.s()) }
    pub fn d<D: Decimal>(&mut self) -> D where D::U: FromDec { D::new(D::U::from_dec(self.s())) }
}
pub trait FromDec { fn from_dec(s: &str) -> Self; }
impl FromDec for u128 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for u8 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for u16 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for u32 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for i32 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for u64 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
macro_rules! fd { ($($t:ty),*) => { $(impl FromDec for $t { fn from_dec(s: &str) -> Self { <$t>::from_dec_str(s).expect("range") } })* } }
fd!(U128, U192, U256, U320, U384, U448, U512);

pub type R = Option<String>;
fn ok<T: std::fmt::Display>(t: T) -> R { Some(t.to_string()) }
fn res<T: std::fmt::Display, E>(r: Result<T, E>) -> R { r.ok().map(|t| t.to_string()) }
fn resd<T: Decimal, E>(r: Result<T, E>) -> R where T::U: std::fmt::Display { r.ok().map(|t| t.get().to_string()) }
fn okd<T: Decimal>(t: T) -> R where T::U: std::fmt::Display { Some(t.get().to_string()) }
fn bi(b: bool) -> i32 { b as i32 }

macro_rules! dispatch1 { ($n:expr, $f:ident, $a:expr) => { match $n {
    "FeeGrowth" => $f!(FeeGrowth, $a), "FixedPoint" => $f!(FixedPoint, $a), "Liquidity" => $f!(Liquidity, $a), "Percentage" => $f!(Percentage, $a),
    "SecondsPerLiquidity" => $f!(SecondsPerLiquidity, $a), "SqrtPrice" => $f!(SqrtPrice, $a), "TokenAmount" => $f!(TokenAmount, $a), x => panic!("type {x}") } } }
macro_rules! ops1 { ($t:ident, $a:expr) => {{ let a = $a; let op = a.s(); match op {
    "add" => { let (x, y): ($t, $t) = (a.d(), a.d()); okd(x + y) }
    "sub" => { let (x, y): ($t, $t) = (a.d(), a.d()); okd(x - y) }
    "add_assign" => { let (mut x, y): ($t, $t) = (a.d(), a.d()); x += y; okd(x) }
    "sub_assign" => { let (mut x, y): ($t, $t) = (a.d(), a.d()); x -= y; okd(x) }
    "mul_assign" => { let (mut x, y): ($t, $t) = (a.d(), a.d()); x *= y; okd(x) }
    "div_assign" => { let (mut x, y): ($t, $t) = (a.d(), a.d()); x /= y; okd(x) }
    "checked_add" => { let (x, y): ($t, $t) = (a.d(), a.d()); resd(x.checked_add(y)) }
    "checked_sub" => { let (x, y): ($t, $t) = (a.d(), a.d()); resd(x.checked_sub(y)) }
    "checked_div" => { let (x, y): ($t, $t) = (a.d(), a.d()); resd(x.checked_div(y)) }
    "sub_abs" => { let (x, y): ($t, $t) = (a.d(), a.d()); okd(x.sub_abs(y)) }
    "one" => okd($t::one()), "almost_one" => okd($t::almost_one()), "max" => okd($t::max_instance()), "scale" => ok($t::scale()),
    "from_integer" => { let x: u128 = a.n(); okd($t::from_integer(x)) }
    "from_scale" => { let x: u128 = a.n(); okd($t::from_scale(x, a.n())) }
    "from_scale_up" => { let x: u128 = a.n(); okd($t::from_scale_up(x, a.n())) }
    "checked_from_scale" => { let x: u128 = a.n(); resd($t::checked_from_scale(x, a.n())) }
    _ => pairs(a, op) } }} }
macro_rules! pair_row { ($n:expr, $l:ident, $a:expr, $op:expr) => { match $n {
    "FeeGrowth" => ops2!($l, FeeGrowth, $a, $op), "FixedPoint" => ops2!($l, FixedPoint, $a, $op), "Liquidity" => ops2!($l, Liquidity, $a, $op), "Percentage" => ops2!($l, Percentage, $a, $op),
    "SecondsPerLiquidity" => ops2!($l, SecondsPerLiquidity, $a, $op), "SqrtPrice" => ops2!($l, SqrtPrice, $a, $op), "TokenAmount" => ops2!($l, TokenAmount, $a, $op), x => panic!("type {x}") } } }
macro_rules! ops2 { ($l:ident, $r:ident, $a:expr, $op:expr) => {{ let a = $a; match $op {
    "mul" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x * y) }
    "mul_up" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.mul_up(y)) }
    "div" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x / y) }
    "div_up" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.div_up(y)) }
    "big_mul" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.big_mul(y)) }
    "big_mul_up" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.big_mul_up(y)) }
    "big_div" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.big_div(y)) }
    "big_div_up" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.big_div_up(y)) }
    "checked_big_div" => { let (x, y): ($l, $r) = (a.d(), a.d()); resd(x.checked_big_div(y)) }
    "from_decimal" => { let y: $r = a.d(); okd($l::from_decimal(y)) }
    "from_decimal_up" => { let y: $r = a.d(); okd($l::from_decimal_up(y)) }
    "checked_from_decimal" => { let y: $r = a.d(); resd($l::checked_from_decimal(y)) }
    x => panic!("op {x}") } }} }
fn pairs(a: &mut Args, op: &str) -> R {
    let (l, r) = (a.s(), a.s());
    macro_rules! rows { ($($t:ident),*) => { match l { $(stringify!($t) => pair_row!(r, $t, a, op),)* x => panic!("type {x}") } } }
    rows!(FeeGrowth, FixedPoint, Liquidity, Percentage, SecondsPerLiquidity, SqrtPrice, TokenAmount)
}
fn ccast(f: &str, t: &str, a: &mut Args) -> R { match (f, t) {
    ("u8", "u128") => res(<u128 as UintCheckedCast<u8>>::uint_checked_cast(a.big())), ("u8", "U128") => res(<U128 as UintCheckedCast<u8>>::uint_checked_cast(a.big())), ("u8", "U192") => res(<U192 as UintCheckedCast<u8>>::uint_checked_cast(a.big())), ("u8", "U256") => res(<U256 as UintCheckedCast<u8>>::uint_checked_cast(a.big())), ("u8", "U320") => res(<U320 as UintCheckedCast<u8>>::uint_checked_cast(a.big())), ("u8", "U384") => res(<U384 as UintCheckedCast<u8>>::uint_checked_cast(a.big())), ("u8", "U448") => res(<U448 as UintCheckedCast<u8>>::uint_checked_cast(a.big())), ("u8", "U512") => res(<U512 as UintCheckedCast<u8>>::uint_checked_cast(a.big())),
    ("u16", "u128") => res(<u128 as UintCheckedCast<u16>>::uint_checked_cast(a.big())), ("u16", "U128") => res(<U128 as UintCheckedCast<u16>>::uint_checked_cast(a.big())), ("u16", "U192") => res(<U192 as UintCheckedCast<u16>>::uint_checked_cast(a.big())), ("u16", "U256") => res(<U256 as UintCheckedCast<u16>>::uint_checked_cast(a.big())), ("u16", "U320") => res(<U320 as UintCheckedCast<u16>>::uint_checked_cast(a.big())), ("u16", "U384") => res(<U384 as UintCheckedCast<u16>>::uint_checked_cast(a.big())), ("u16", "U448") => res(<U448 as UintCheckedCast<u16>>::uint_checked_cast(a.big())), ("u16", "U512") => res(<U512 as UintCheckedCast<u16>>::uint_checked_cast(a.big())),
    ("u32", "u128") => res(<u128 as UintCheckedCast<u32>>::uint_checked_cast(a.big())), ("u32", "U128") => res(<U128 as UintCheckedCast<u32>>::uint_checked_cast(a.big())), ("u32", "U192") => res(<U192 as UintCheckedCast<u32>>::uint_checked_cast(a.big())), ("u32", "U256") => res(<U256 as UintCheckedCast<u32>>::uint_checked_cast(a.big())), ("u32", "U320") => res(<U320 as UintCheckedCast<u32>>::uint_checked_cast(a.big())), ("u32", "U384") => res(<U384 as UintCheckedCast<u32>>::uint_checked_cast(a.big())), ("u32", "U448") => res(<U448 as UintCheckedCast<u32>>::uint_checked_cast(a.big())), ("u32", "U512") => res(<U512 as UintCheckedCast<u32>>::uint_checked_cast(a.big())),
    ("u64", "u128") => res(<u128 as UintCheckedCast<u64>>::uint_checked_cast(a.big())), ("u64", "U128") => res(<U128 as UintCheckedCast<u64>>::uint_checked_cast(a.big())), ("u64", "U192") => res(<U192 as UintCheckedCast<u64>>::uint_checked_cast(a.big())), ("u64", "U256") => res(<U256 as UintCheckedCast<u64>>::uint_checked_cast(a.big())), ("u64", "U320") => res(<U320 as UintCheckedCast<u64>>::uint_checked_cast(a.big())), ("u64", "U384") => res(<U384 as UintCheckedCast<u64>>::uint_checked_cast(a.big())), ("u64", "U448") => res(<U448 as UintCheckedCast<u64>>::uint_checked_cast(a.big())), ("u64", "U512") => res(<U512 as UintCheckedCast<u64>>::uint_checked_cast(a.big())),
    ("u128", "U128") => res(<U128 as UintCheckedCast<u128>>::uint_checked_cast(a.big())), ("u128", "U192") => res(<U192 as UintCheckedCast<u128>>::uint_checked_cast(a.big())), ("u128", "U256") => res(<U256 as UintCheckedCast<u128>>::uint_checked_cast(a.big())), ("u128", "U320") => res(<U320 as UintCheckedCast<u128>>::uint_checked_cast(a.big())), ("u128", "U384") => res(<U384 as UintCheckedCast<u128>>::uint_checked_cast(a.big())), ("u128", "U448") => res(<U448 as UintCheckedCast<u128>>::uint_checked_cast(a.big())), ("u128", "U512") => res(<U512 as UintCheckedCast<u128>>::uint_checked_cast(a.big())),
    ("U128", "u8") => res(<u8 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "u16") => res(<u16 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "u32") => res(<u32 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "u64") => res(<u64 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "u128") => res(<u128 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "U192") => res(<U192 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "U256") => res(<U256 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "U320") => res(<U320 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "U384") => res(<U384 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "U448") => res(<U448 as UintCheckedCast<U128>>::uint_checked_cast(a.big())), ("U128", "U512") => res(<U512 as UintCheckedCast<U128>>::uint_checked_cast(a.big())),
    ("U192", "u8") => res(<u8 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "u16") => res(<u16 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "u32") => res(<u32 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "u64") => res(<u64 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "u128") => res(<u128 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "U128") => res(<U128 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "U256") => res(<U256 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "U320") => res(<U320 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "U384") => res(<U384 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "U448") => res(<U448 as UintCheckedCast<U192>>::uint_checked_cast(a.big())), ("U192", "U512") => res(<U512 as UintCheckedCast<U192>>::uint_checked_cast(a.big())),
    ("U256", "u8") => res(<u8 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "u16") => res(<u16 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "u32") => res(<u32 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "u64") => res(<u64 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "u128") => res(<u128 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "U128") => res(<U128 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "U192") => res(<U192 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "U320") => res(<U320 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "U384") => res(<U384 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "U448") => res(<U448 as UintCheckedCast<U256>>::uint_checked_cast(a.big())), ("U256", "U512") => res(<U512 as UintCheckedCast<U256>>::uint_checked_cast(a.big())),
    ("U320", "u8") => res(<u8 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "u16") => res(<u16 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "u32") => res(<u32 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "u64") => res(<u64 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "u128") => res(<u128 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "U128") => res(<U128 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "U192") => res(<U192 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "U256") => res(<U256 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "U384") => res(<U384 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "U448") => res(<U448 as UintCheckedCast<U320>>::uint_checked_cast(a.big())), ("U320", "U512") => res(<U512 as UintCheckedCast<U320>>::uint_checked_cast(a.big())),
    ("U384", "u8") => res(<u8 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "u16") => res(<u16 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "u32") => res(<u32 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "u64") => res(<u64 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "u128") => res(<u128 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "U128") => res(<U128 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "U192") => res(<U192 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "U256") => res(<U256 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "U320") => res(<U320 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "U448") => res(<U448 as UintCheckedCast<U384>>::uint_checked_cast(a.big())), ("U384", "U512") => res(<U512 as UintCheckedCast<U384>>::uint_checked_cast(a.big())),
    ("U448", "u8") => res(<u8 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "u16") => res(<u16 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "u32") => res(<u32 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "u64") => res(<u64 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "u128") => res(<u128 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "U128") => res(<U128 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "U192") => res(<U192 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "U256") => res(<U256 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "U320") => res(<U320 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "U384") => res(<U384 as UintCheckedCast<U448>>::uint_checked_cast(a.big())), ("U448", "U512") => res(<U512 as UintCheckedCast<U448>>::uint_checked_cast(a.big())),
    ("U512", "u8") => res(<u8 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "u16") => res(<u16 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "u32") => res(<u32 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "u64") => res(<u64 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "u128") => res(<u128 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "U128") => res(<U128 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "U192") => res(<U192 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "U256") => res(<U256 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "U320") => res(<U320 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "U384") => res(<U384 as UintCheckedCast<U512>>::uint_checked_cast(a.big())), ("U512", "U448") => res(<U448 as UintCheckedCast<U512>>::uint_checked_cast(a.big())),
    ("i32", "U128") => res(<U128 as UintCheckedCast<i32>>::uint_checked_cast(a.big())), ("i32", "U192") => res(<U192 as UintCheckedCast<i32>>::uint_checked_cast(a.big())), ("i32", "U256") => res(<U256 as UintCheckedCast<i32>>::uint_checked_cast(a.big())), ("i32", "U320") => res(<U320 as UintCheckedCast<i32>>::uint_checked_cast(a.big())), ("i32", "U384") => res(<U384 as UintCheckedCast<i32>>::uint_checked_cast(a.big())), ("i32", "U448") => res(<U448 as UintCheckedCast<i32>>::uint_checked_cast(a.big())), ("i32", "U512") => res(<U512 as UintCheckedCast<i32>>::uint_checked_cast(a.big())),
    x => panic!("cast {x:?}") } }
fn ucast(f: &str, t: &str, a: &mut Args) -> R { match (f, t) {
    ("u8", "u128") => ok(<u128 as UintCast<u8>>::uint_cast(a.big())), ("u8", "U128") => ok(<U128 as UintCast<u8>>::uint_cast(a.big())), ("u8", "U192") => ok(<U192 as UintCast<u8>>::uint_cast(a.big())), ("u8", "U256") => ok(<U256 as UintCast<u8>>::uint_cast(a.big())), ("u8", "U320") => ok(<U320 as UintCast<u8>>::uint_cast(a.big())), ("u8", "U384") => ok(<U384 as UintCast<u8>>::uint_cast(a.big())), ("u8", "U448") => ok(<U448 as UintCast<u8>>::uint_cast(a.big())), ("u8", "U512") => ok(<U512 as UintCast<u8>>::uint_cast(a.big())),
    ("u16", "u128") => ok(<u128 as UintCast<u16>>::uint_cast(a.big())), ("u16", "U128") => ok(<U128 as UintCast<u16>>::uint_cast(a.big())), ("u16", "U192") => ok(<U192 as UintCast<u16>>::uint_cast(a.big())), ("u16", "U256") => ok(<U256 as UintCast<u16>>::uint_cast(a.big())), ("u16", "U320") => ok(<U320 as UintCast<u16>>::uint_cast(a.big())), ("u16", "U384") => ok(<U384 as UintCast<u16>>::uint_cast(a.big())), ("u16", "U448") => ok(<U448 as UintCast<u16>>::uint_cast(a.big())), ("u16", "U512") => ok(<U512 as UintCast<u16>>::uint_cast(a.big())),
    ("u32", "u128") => ok(<u128 as UintCast<u32>>::uint_cast(a.big())), ("u32", "U128") => ok(<U128 as UintCast<u32>>::uint_cast(a.big())), ("u32", "U192") => ok(<U192 as UintCast<u32>>::uint_cast(a.big())), ("u32", "U256") => ok(<U256 as UintCast<u32>>::uint_cast(a.big())), ("u32", "U320") => ok(<U320 as UintCast<u32>>::uint_cast(a.big())), ("u32", "U384") => ok(<U384 as UintCast<u32>>::uint_cast(a.big())), ("u32", "U448") => ok(<U448 as UintCast<u32>>::uint_cast(a.big())), ("u32", "U512") => ok(<U512 as UintCast<u32>>::uint_cast(a.big())),
    ("u64", "u128") => ok(<u128 as UintCast<u64>>::uint_cast(a.big())), ("u64", "U128") => ok(<U128 as UintCast<u64>>::uint_cast(a.big())), ("u64", "U192") => ok(<U192 as UintCast<u64>>::uint_cast(a.big())), ("u64", "U256") => ok(<U256 as UintCast<u64>>::uint_cast(a.big())), ("u64", "U320") => ok(<U320 as UintCast<u64>>::uint_cast(a.big())), ("u64", "U384") => ok(<U384 as UintCast<u64>>::uint_cast(a.big())), ("u64", "U448") => ok(<U448 as UintCast<u64>>::uint_cast(a.big())), ("u64", "U512") => ok(<U512 as UintCast<u64>>::uint_cast(a.big())),
    ("u128", "U128") => ok(<U128 as UintCast<u128>>::uint_cast(a.big())), ("u128", "U192") => ok(<U192 as UintCast<u128>>::uint_cast(a.big())), ("u128", "U256") => ok(<U256 as UintCast<u128>>::uint_cast(a.big())), ("u128", "U320") => ok(<U320 as UintCast<u128>>::uint_cast(a.big())), ("u128", "U384") => ok(<U384 as UintCast<u128>>::uint_cast(a.big())), ("u128", "U448") => ok(<U448 as UintCast<u128>>::uint_cast(a.big())), ("u128", "U512") => ok(<U512 as UintCast<u128>>::uint_cast(a.big())),
    ("U128", "u8") => ok(<u8 as UintCast<U128>>::uint_cast(a.big())), ("U128", "u16") => ok(<u16 as UintCast<U128>>::uint_cast(a.big())), ("U128", "u32") => ok(<u32 as UintCast<U128>>::uint_cast(a.big())), ("U128", "u64") => ok(<u64 as UintCast<U128>>::uint_cast(a.big())), ("U128", "u128") => ok(<u128 as UintCast<U128>>::uint_cast(a.big())), ("U128", "U192") => ok(<U192 as UintCast<U128>>::uint_cast(a.big())), ("U128", "U256") => ok(<U256 as UintCast<U128>>::uint_cast(a.big())), ("U128", "U320") => ok(<U320 as UintCast<U128>>::uint_cast(a.big())), ("U128", "U384") => ok(<U384 as UintCast<U128>>::uint_cast(a.big())), ("U128", "U448") => ok(<U448 as UintCast<U128>>::uint_cast(a.big())), ("U128", "U512") => ok(<U512 as UintCast<U128>>::uint_cast(a.big())),
    ("U192", "u8") => ok(<u8 as UintCast<U192>>::uint_cast(a.big())), ("U192", "u16") => ok(<u16 as UintCast<U192>>::uint_cast(a.big())), ("U192", "u32") => ok(<u32 as UintCast<U192>>::uint_cast(a.big())), ("U192", "u64") => ok(<u64 as UintCast<U192>>::uint_cast(a.big())), ("U192", "u128") => ok(<u128 as UintCast<U192>>::uint_cast(a.big())), ("U192", "U128") => ok(<U128 as UintCast<U192>>::uint_cast(a.big())), ("U192", "U256") => ok(<U256 as UintCast<U192>>::uint_cast(a.big())), ("U192", "U320") => ok(<U320 as UintCast<U192>>::uint_cast(a.big())), ("U192", "U384") => ok(<U384 as UintCast<U192>>::uint_cast(a.big())), ("U192", "U448") => ok(<U448 as UintCast<U192>>::uint_cast(a.big())), ("U192", "U512") => ok(<U512 as UintCast<U192>>::uint_cast(a.big())),
    ("U256", "u8") => ok(<u8 as UintCast<U256>>::uint_cast(a.big())), ("U256", "u16") => ok(<u16 as UintCast<U256>>::uint_cast(a.big())), ("U256", "u32") => ok(<u32 as UintCast<U256>>::uint_cast(a.big())), ("U256", "u64") => ok(<u64 as UintCast<U256>>::uint_cast(a.big())), ("U256", "u128") => ok(<u128 as UintCast<U256>>::uint_cast(a.big())), ("U256", "U128") => ok(<U128 as UintCast<U256>>::uint_cast(a.big())), ("U256", "U192") => ok(<U192 as UintCast<U256>>::uint_cast(a.big())), ("U256", "U320") => ok(<U320 as UintCast<U256>>::uint_cast(a.big())), ("U256", "U384") => ok(<U384 as UintCast<U256>>::uint_cast(a.big())), ("U256", "U448") => ok(<U448 as UintCast<U256>>::uint_cast(a.big())), ("U256", "U512") => ok(<U512 as UintCast<U256>>::uint_cast(a.big())),
    ("U320", "u8") => ok(<u8 as UintCast<U320>>::uint_cast(a.big())), ("U320", "u16") => ok(<u16 as UintCast<U320>>::uint_cast(a.big())), ("U320", "u32") => ok(<u32 as UintCast<U320>>::uint_cast(a.big())), ("U320", "u64") => ok(<u64 as UintCast<U320>>::uint_cast(a.big())), ("U320", "u128") => ok(<u128 as UintCast<U320>>::uint_cast(a.big())), ("U320", "U128") => ok(<U128 as UintCast<U320>>::uint_cast(a.big())), ("U320", "U192") => ok(<U192 as UintCast<U320>>::uint_cast(a.big())), ("U320", "U256") => ok(<U256 as UintCast<U320>>::uint_cast(a.big())), ("U320", "U384") => ok(<U384 as UintCast<U320>>::uint_cast(a.big())), ("U320", "U448") => ok(<U448 as UintCast<U320>>::uint_cast(a.big())), ("U320", "U512") => ok(<U512 as UintCast<U320>>::uint_cast(a.big())),
    ("U384", "u8") => ok(<u8 as UintCast<U384>>::uint_cast(a.big())), ("U384", "u16") => ok(<u16 as UintCast<U384>>::uint_cast(a.big())), ("U384", "u32") => ok(<u32 as UintCast<U384>>::uint_cast(a.big())), ("U384", "u64") => ok(<u64 as UintCast<U384>>::uint_cast(a.big())), ("U384", "u128") => ok(<u128 as UintCast<U384>>::uint_cast(a.big())), ("U384", "U128") => ok(<U128 as UintCast<U384>>::uint_cast(a.big())), ("U384", "U192") => ok(<U192 as UintCast<U384>>::uint_cast(a.big())), ("U384", "U256") => ok(<U256 as UintCast<U384>>::uint_cast(a.big())), ("U384", "U320") => ok(<U320 as UintCast<U384>>::uint_cast(a.big())), ("U384", "U448") => ok(<U448 as UintCast<U384>>::uint_cast(a.big())), ("U384", "U512") => ok(<U512 as UintCast<U384>>::uint_cast(a.big())),
    ("U448", "u8") => ok(<u8 as UintCast<U448>>::uint_cast(a.big())), ("U448", "u16") => ok(<u16 as UintCast<U448>>::uint_cast(a.big())), ("U448", "u32") => ok(<u32 as UintCast<U448>>::uint_cast(a.big())), ("U448", "u64") => ok(<u64 as UintCast<U448>>::uint_cast(a.big())), ("U448", "u128") => ok(<u128 as UintCast<U448>>::uint_cast(a.big())), ("U448", "U128") => ok(<U128 as UintCast<U448>>::uint_cast(a.big())), ("U448", "U192") => ok(<U192 as UintCast<U448>>::uint_cast(a.big())), ("U448", "U256") => ok(<U256 as UintCast<U448>>::uint_cast(a.big())), ("U448", "U320") => ok(<U320 as UintCast<U448>>::uint_cast(a.big())), ("U448", "U384") => ok(<U384 as UintCast<U448>>::uint_cast(a.big())), ("U448", "U512") => ok(<U512 as UintCast<U448>>::uint_cast(a.big())),
    ("U512", "u8") => ok(<u8 as UintCast<U512>>::uint_cast(a.big())), ("U512", "u16") => ok(<u16 as UintCast<U512>>::uint_cast(a.big())), ("U512", "u32") => ok(<u32 as UintCast<U512>>::uint_cast(a.big())), ("U512", "u64") => ok(<u64 as UintCast<U512>>::uint_cast(a.big())), ("U512", "u128") => ok(<u128 as UintCast<U512>>::uint_cast(a.big())), ("U512", "U128") => ok(<U128 as UintCast<U512>>::uint_cast(a.big())), ("U512", "U192") => ok(<U192 as UintCast<U512>>::uint_cast(a.big())), ("U512", "U256") => ok(<U256 as UintCast<U512>>::uint_cast(a.big())), ("U512", "U320") => ok(<U320 as UintCast<U512>>::uint_cast(a.big())), ("U512", "U384") => ok(<U384 as UintCast<U512>>::uint_cast(a.big())), ("U512", "U448") => ok(<U448 as UintCast<U512>>::uint_cast(a.big())),
    ("i32", "u128") => ok(<u128 as UintCast<i32>>::uint_cast(a.big())), ("i32", "U128") => ok(<U128 as UintCast<i32>>::uint_cast(a.big())), ("i32", "U192") => ok(<U192 as UintCast<i32>>::uint_cast(a.big())), ("i32", "U256") => ok(<U256 as UintCast<i32>>::uint_cast(a.big())), ("i32", "U320") => ok(<U320 as UintCast<i32>>::uint_cast(a.big())), ("i32", "U384") => ok(<U384 as UintCast<i32>>::uint_cast(a.big())), ("i32", "U448") => ok(<U448 as UintCast<i32>>::uint_cast(a.big())), ("i32", "U512") => ok(<U512 as UintCast<i32>>::uint_cast(a.big())),
    x => panic!("cast {x:?}") } }
fn sp(a: &mut Args) -> SqrtPrice { a.d() }
pub fn call(name: &str, a: &mut Args) -> R {
    match name {
        "d" => { let t = a.s(); dispatch1!(t, ops1, a) }
        "ccast" => { let (f, t) = (a.s(), a.s()); ccast(f, t, a) }
        "ucast" => { let (f, t) = (a.s(), a.s()); ucast(f, t, a) }
        "dx" => resd(get_delta_x(sp(a), sp(a), a.d(), a.b())),
        "dy" => resd(get_delta_y(sp(a), sp(a), a.d(), a.b())),
        "nx" => resd(get_next_sqrt_price_x_up(sp(a), a.d(), a.d(), a.b())),
        "step" => compute_swap_step(sp(a), sp(a), a.d(), a.d(), a.b(), a.d()).ok().map(|r| format!("{} {} {} {}", r.next_sqrt_price.get(), r.amount_in.get(), r.amount_out.get(), r.fee_amount.get())),
        "amount_delta" => calculate_amount_delta(a.i(), sp(a), a.d(), a.b(), a.i(), a.i()).ok().map(|(x, y, u)| format!("{} {} {}", x.get(), y.get(), bi(u))),
        "enough" => res(is_enough_amount_to_change_price(a.d(), sp(a), a.d(), a.d(), a.b(), a.b()).map(bi)),
        "max_liq" => okd(calculate_max_liquidity_per_tick(a.n())),
        "check_ticks" => res(check_ticks(a.i(), a.i(), a.n()).map(|_| 1)),
        "check_tick" => res(check_tick(a.i(), a.n()).map(|_| 1)),
        "min_out" => okd(calculate_min_amount_out(a.d(), a.d())),
        "price" => resd(calculate_sqrt_price(a.i())),
        "from_tick" => resd(SqrtPrice::from_tick(a.i())),
        "rel" => res(check_tick_to_sqrt_price_relationship(a.i(), a.n(), sp(a)).map(bi)),
        "max_tick" => ok(get_max_tick(a.n())), "min_tick" => ok(get_min_tick(a.n())),
        "max_price" => okd(get_max_sqrt_price(a.n())), "min_price" => okd(get_min_sqrt_price(a.n())),
        "tick_at" => res(get_tick_at_sqrt_price(sp(a), a.n())),
        "bdt" => resd(SqrtPrice::big_div_values_to_token(a.big(), a.big())),
        "bdtu" => resd(SqrtPrice::big_div_values_to_token_up(a.big(), a.big())),
        "fg_add" => okd(a.d::<FeeGrowth>().unchecked_add(a.d())), "fg_sub" => okd(a.d::<FeeGrowth>().unchecked_sub(a.d())),
        "fg_from" => resd(FeeGrowth::from_fee(a.d(), a.d())), "fg_to" => resd(a.d::<FeeGrowth>().to_fee(a.d())),
        "fg_inside" => { let (x, y) = calculate_fee_growth_inside(a.i(), a.d(), a.d(), a.i(), a.d(), a.d(), a.i(), a.d(), a.d()); Some(format!("{} {}", x.get(), y.get())) }
        "spl_add" => okd(a.d::<SecondsPerLiquidity>().unchecked_add(a.d())), "spl_sub" => okd(a.d::<SecondsPerLiquidity>().unchecked_sub(a.d())),
        "spl_global" => resd(SecondsPerLiquidity::calculate_seconds_per_liquidity_global(a.d(), a.n(), a.n())),
        "spl_inside" => resd(calculate_seconds_per_liquidity_inside(a.i(), a.i(), a.i(), a.d(), a.d(), a.d())),
        "liq" => get_liquidity(a.d(), a.d(), a.i(), a.i(), sp(a), a.b()).ok().map(|r| format!("{} {} {}", r.x.get(), r.y.get(), r.l.get())),
        "liq_x" => get_liquidity_by_x(a.d(), a.i(), a.i(), sp(a), a.b()).ok().map(|r| format!("{} {}", r.l.get(), r.amount.get())),
        "liq_y" => get_liquidity_by_y(a.d(), a.i(), a.i(), sp(a), a.b()).ok().map(|r| format!("{} {}", r.l.get(), r.amount.get())),
        "uop" => crate::uintsrv::call(a),
        x => return crate::ctrsrv::call(x, a),
    }
}
