//! Line server over the pure functions of the client library (/repo/sdk/src/wasm): same protocol as the contract's server.
use decimal::*;
use sdk::types::{fee_growth::*, fixed_point::*, liquidity::*, percentage::*, seconds_per_liquidity::*, sqrt_price::*, token_amount::*};
use sdk::*;
use std::io::{BufRead, Write};

pub struct Args<'a>(pub std::str::SplitWhitespace<'a>);
impl<'a> Args<'a> {
    pub fn s(&mut self) -> &'a str { self.0.next().expect("missing argument") }
    pub fn i(&mut self) -> i32 { self.s().parse().unwrap() }
    pub fn n<T: std::str::FromStr>(&mut self) -> T where T::Err: std::fmt::Debug { self.s().parse().unwrap() }
    pub fn b(&mut self) -> bool { self.s() == "1" }
    pub fn big<T: FromDec>(&mut self) -> T { T::from_dec(self.s()) }
    pub fn d<D: Decimal>(&mut self) -> D where D::U: FromDec { D::new(D::U::from_dec(self.s())) }
}
pub trait FromDec { fn from_dec(s: &str) -> Self; }
impl FromDec for u128 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for u8 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for u16 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for u32 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for i32 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
impl FromDec for u64 { fn from_dec(s: &str) -> Self { s.parse().expect("range") } }
macro_rules! fd { ($($t:ty),*) => { $(impl FromDec for $t { fn from_dec(s: &str) -> Self { <$t>::from_dec_str(s).expect("range") } })* } }
fd!(U128, U192, U256, U320, U384, U448, U512);

pub type R = Option<String>;
fn ok<T: std::fmt::Display>(t: T) -> R { Some(t.to_string()) }
fn res<T: std::fmt::Display, E>(r: Result<T, E>) -> R { r.ok().map(|t| t.to_string()) }
fn resd<T: Decimal, E>(r: Result<T, E>) -> R where T::U: std::fmt::Display { r.ok().map(|t| t.get().to_string()) }
fn okd<T: Decimal>(t: T) -> R where T::U: std::fmt::Display { Some(t.get().to_string()) }
fn bi(b: bool) -> i32 { b as i32 }

macro_rules! dispatch1 { ($n:expr, $f:ident, $a:expr) => { match $n {
    "FeeGrowth" => $f!(FeeGrowth, $a), "FixedPoint" => $f!(FixedPoint, $a), "Liquidity" => $f!(Liquidity, $a), "Percentage" => $f!(Percentage, $a),
    "SecondsPerLiquidity" => $f!(SecondsPerLiquidity, $a), "SqrtPrice" => $f!(SqrtPrice, $a), "TokenAmount" => $f!(TokenAmount, $a), x => panic!("type {x}") } } }
macro_rules! ops1 { ($t:ident, $a:expr) => {{ let a = $a; let op = a.s(); match op {
    "add" => { let (x, y): ($t, $t) = (a.d(), a.d()); okd(x + y) }
    "sub" => { let (x, y): ($t, $t) = (a.d(), a.d()); okd(x - y) }
    "add_assign" => { let (mut x, y): ($t, $t) = (a.d(), a.d()); x += y; okd(x) }
    "sub_assign" => { let (mut x, y): ($t, $t) = (a.d(), a.d()); x -= y; okd(x) }
    "mul_assign" => { let (mut x, y): ($t, $t) = (a.d(), a.d()); x *= y; okd(x) }
    "div_assign" => { let (mut x, y): ($t, $t) = (a.d(), a.d()); x /= y; okd(x) }
    "checked_add" => { let (x, y): ($t, $t) = (a.d(), a.d()); resd(x.checked_add(y)) }
    "checked_sub" => { let (x, y): ($t, $t) = (a.d(), a.d()); resd(x.checked_sub(y)) }
    "checked_div" => { let (x, y): ($t, $t) = (a.d(), a.d()); resd(x.checked_div(y)) }
    "sub_abs" => { let (x, y): ($t, $t) = (a.d(), a.d()); okd(x.sub_abs(y)) }
    "one" => okd($t::one()), "almost_one" => okd($t::almost_one()), "max" => okd($t::max_instance()), "scale" => ok($t::scale()),
    "from_integer" => { let x: u128 = a.n(); okd($t::from_integer(x)) }
    "from_scale" => { let x: u128 = a.n(); okd($t::from_scale(x, a.n())) }
    "from_scale_up" => { let x: u128 = a.n(); okd($t::from_scale_up(x, a.n())) }
    "checked_from_scale" => { let x: u128 = a.n(); resd($t::checked_from_scale(x, a.n())) }
    _ => pairs(a, op) } }} }
macro_rules! pair_row { ($n:expr, $l:ident, $a:expr, $op:expr) => { match $n {
    "FeeGrowth" => ops2!($l, FeeGrowth, $a, $op), "FixedPoint" => ops2!($l, FixedPoint, $a, $op), "Liquidity" => ops2!($l, Liquidity, $a, $op), "Percentage" => ops2!($l, Percentage, $a, $op),
    "SecondsPerLiquidity" => ops2!($l, SecondsPerLiquidity, $a, $op), "SqrtPrice" => ops2!($l, SqrtPrice, $a, $op), "TokenAmount" => ops2!($l, TokenAmount, $a, $op), x => panic!("type {x}") } } }
macro_rules! ops2 { ($l:ident, $r:ident, $a:expr, $op:expr) => {{ let a = $a; match $op {
    "mul" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x * y) }
    "mul_up" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.mul_up(y)) }
    "div" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x / y) }
    "div_up" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.div_up(y)) }
    "big_mul" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.big_mul(y)) }
    "big_mul_up" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.big_mul_up(y)) }
    "big_div" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.big_div(y)) }
    "big_div_up" => { let (x, y): ($l, $r) = (a.d(), a.d()); okd(x.big_div_up(y)) }
    "checked_big_div" => { let (x, y): ($l, $r) = (a.d(), a.d()); resd(x.checked_big_div(y)) }
    "from_decimal" => { let y: $r = a.d(); okd($l::from_decimal(y)) }
    "from_decimal_up" => { let y: $r = a.d(); okd($l::from_decimal_up(y)) }
    "checked_from_decimal" => { let y: $r = a.d(); resd($l::checked_from_decimal(y)) }
    x => panic!("op {x}") } }} }
fn pairs(a: &mut Args, op: &str) -> R {
    let (l, r) = (a.s(), a.s());
    macro_rules! rows { ($($t:ident),*) => { match l { $(stringify!($t) => pair_row!(r, $t, a, op),)* x => panic!("type {x}") } } }
    rows!(FeeGrowth, FixedPoint, Liquidity, Percentage, SecondsPerLiquidity, SqrtPrice, TokenAmount)
}

fn sp(a: &mut Args) -> SqrtPrice { a.d() }
fn opt(o: Option<i32>) -> String { o.map(|x| x.to_string()).unwrap_or("none".into()) }
fn cmds<'a>(a: &'a mut Args) -> Vec<Vec<&'a str>> { let v: Vec<&str> = a.0.by_ref().collect(); v.split(|x| *x == ";").map(|x| x.to_vec()).collect() }
pub fn call(name: &str, a: &mut Args) -> R {
    match name {
        "d" => { let t = a.s(); dispatch1!(t, ops1, a) }
        "dx" => resd(get_delta_x(sp(a), sp(a), a.d(), a.b())),
        "dy" => resd(get_delta_y(sp(a), sp(a), a.d(), a.b())),
        "step" => compute_swap_step(sp(a), sp(a), a.d(), a.d(), a.b(), a.d()).ok().map(|r| format!("{} {} {} {}", r.next_sqrt_price.get(), r.amount_in.get(), r.amount_out.get(), r.fee_amount.get())),
        "amount_delta" => calculate_amount_delta(a.i(), sp(a), a.d(), a.b(), a.i(), a.i()).ok().map(|(x, y, u)| format!("{} {} {}", x.get(), y.get(), bi(u))),
        "enough" => res(is_enough_amount_to_change_price(a.d(), sp(a), a.d(), a.d(), a.b(), a.b()).map(bi)),
        "max_liq" => okd(calculate_max_liquidity_per_tick(a.n())),
        "check_ticks" => res(check_ticks(a.i(), a.i(), a.n()).map(|_| 1)),
        "check_tick" => res(check_tick(a.i(), a.n()).map(|_| 1)),
        "min_out" => okd(calculate_min_amount_out(a.d(), a.d())),
        "price" => resd(calculate_sqrt_price(a.i())),
        "from_tick" => resd(SqrtPrice::from_tick(a.i())),
        "rel" => res(check_tick_to_sqrt_price_relationship(a.i(), a.n(), sp(a)).map(bi)),
        "max_tick" => res(get_max_tick(a.n())), "min_tick" => res(get_min_tick(a.n())),
        "max_price" => resd(get_max_sqrt_price(a.n())), "min_price" => resd(get_min_sqrt_price(a.n())),
        "tick_at" => res(get_tick_at_sqrt_price(sp(a), a.n())),
        "bdt" => resd(SqrtPrice::big_div_values_to_token(a.big(), a.big())),
        "bdtu" => resd(SqrtPrice::big_div_values_to_token_up(a.big(), a.big())),
        "fg_add" => okd(a.d::<FeeGrowth>().unchecked_add(a.d())), "fg_sub" => okd(a.d::<FeeGrowth>().unchecked_sub(a.d())),
        "fg_from" => resd(FeeGrowth::from_fee(a.d(), a.d())), "fg_to" => resd(a.d::<FeeGrowth>().to_fee(a.d())),
        "fg_inside" => { let (x, y) = calculate_fee_growth_inside(a.i(), a.d(), a.d(), a.i(), a.d(), a.d(), a.i(), a.d(), a.d()); Some(format!("{} {}", x.get(), y.get())) }
        "owed" => { let (x, y) = calculate_fee(a.i(), a.d(), a.d(), a.i(), a.d(), a.d(), a.i(), a.d(), a.d(), a.d(), a.d(), a.d()).ok()?; Some(format!("{} {}", x.get(), y.get())) }
        "spl_add" => okd(a.d::<SecondsPerLiquidity>().unchecked_add(a.d())), "spl_sub" => okd(a.d::<SecondsPerLiquidity>().unchecked_sub(a.d())),
        "spl_global" => resd(SecondsPerLiquidity::calculate_seconds_per_liquidity_global(a.d(), a.n(), a.n())),
        "spl_inside" => resd(calculate_seconds_per_liquidity_inside(a.i(), a.i(), a.i(), a.d(), a.d(), a.d())),
        "liq_x" => get_liquidity_by_x(a.d(), a.i(), a.i(), sp(a), a.b()).ok().map(|r| format!("{} {}", r.l.get(), r.amount.get())),
        "liq_y" => get_liquidity_by_y(a.d(), a.i(), a.i(), sp(a), a.b()).ok().map(|r| format!("{} {}", r.l.get(), r.amount.get())),
        "search_limit" => Some(get_search_limit(a.i(), a.n(), a.b()).to_string()),
        "t2p" => { let (c, b) = tick_to_position(a.i(), a.n()); Some(format!("{c} {b}")) }
        "t2pj" => { let (c, b) = tick_to_position_js(a.i(), a.n()).ok()?; Some(format!("{c} {b}")) }
        "p2t" => res(position_to_tick(a.n(), a.n(), a.n())),
        "max_chunk" => res(get_max_chunk(a.n())),
        "feetier" => { let t = FeeTier::new(a.d(), a.n()).ok()?; Some(format!("{} {}", t.fee.get(), t.tick_spacing)) }
        "consts" => Some(format!("{} {} {} {} {}", get_global_max_sqrt_price(), get_global_min_sqrt_price(), get_tick_search_range(), get_chunk_size(), get_liquidity_tick_limit())),
        "tm" => {
            let sp: u16 = a.n(); let mut m = Tickmap::default(); let mut out: Vec<String> = vec![];
            for c in cmds(a) {
                if c.is_empty() { continue }
                let j = c[2..].join(" "); let mut b = Args(j.split_whitespace());
                out.push(match c[0] {
                    "flip" => { m.flip(b.b(), b.i(), sp); "ok".into() }
                    "get" => (m.get(b.i(), sp) as u8).to_string(),
                    "next" => opt(m.next_initialized(b.i(), sp)),
                    "prev" => opt(m.prev_initialized(b.i(), sp)),
                    "limit" => match m.get_closer_limit(b.d(), b.b(), b.i(), sp) { Ok((p, None)) => format!("{} none", p.get()), Ok((p, Some((t, i)))) => format!("{} {} {}", p.get(), t, i as u8), Err(_) => "err".into() },
                    x => panic!("op {x}"),
                });
            }
            Some(out.join(";"))
        }
        // sim fee spacing tick price liquidity x_to_y amount by_in limit ; index change sign ; ..
        "sim" => {
            let (fee, spacing): (Percentage, u16) = (a.d(), a.n());
            let pool = Pool { current_tick_index: a.i() as i64, sqrt_price: a.d(), liquidity: a.d(), ..Pool::default() };
            let (xy, am, bi_, lim) = (a.b(), a.d(), a.b(), a.d());
            let mut m = Tickmap::default(); let mut ts = vec![];
            for c in cmds(a) {
                if c.is_empty() { continue }
                let j = c.join(" "); let mut b = Args(j.split_whitespace());
                let t = LiquidityTick { index: b.i() as i64, liquidity_change: b.d(), sign: b.b() };
                m.flip(true, t.index as i32, spacing); ts.push(t);
            }
            let r = simulate_invariant_swap(m, FeeTier { fee, tick_spacing: spacing as u64 }, pool, ts, xy, am, bi_, lim).ok()?;
            Some(format!("{} {} {} {} {} {} {} {} | {}", r.amount_in.get(), r.amount_out.get(), r.start_sqrt_price.get(), r.target_sqrt_price.get(), r.fee.get(), bi(r.global_insufficient_liquidity), bi(r.max_swap_steps_reached), bi(r.state_outdated),
                r.crossed_ticks.iter().map(|t| t.index.to_string()).collect::<Vec<_>>().join(" ")))
        }
        _ => panic!("range: unknown call"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| { if std::env::var("VX_PANIC").is_ok() { eprintln!("{i}") } }));
    let out = std::io::stdout(); let mut out = std::io::BufWriter::new(out.lock());
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap(); if l == "." { out.flush().unwrap(); continue }
        let r = std::panic::catch_unwind(|| { let mut a = Args(l.split_whitespace()); let n = a.s(); call(n, &mut a) });
        match r { Ok(Some(s)) => writeln!(out, "ok {s}"), Ok(None) => writeln!(out, "err"), Err(e) => { let m = e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or(""); writeln!(out, "{}", if m.starts_with("range:") { "bad" } else { "panic" }) } }.unwrap();
    }
}
