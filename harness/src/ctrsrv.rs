//! Line server over the contract crate's structures (ticks, pools, positions, tick map, registries, balances).
use crate::mathsrv::{Args, R};
use contracts::*;
use decimal::*;
use harness::invariant_storage::Invariant;
use math::types::{fee_growth::*, liquidity::*, percentage::*, sqrt_price::*, token_amount::*};
use math::SwapResult;
use sails_rs::ActorId;

pub fn act(a: &mut Args) -> ActorId { ActorId::from(a.n::<u64>()) }
pub fn acts(a: &ActorId) -> String {
    let b: [u8; 32] = (*a).into();
    if b[8..].iter().all(|x| *x == 0) { u64::from_le_bytes(b[..8].try_into().unwrap()).to_string() } else { format!("{:?}", a) }
}
pub fn tier(a: &mut Args) -> FeeTier { FeeTier { fee: a.d(), tick_spacing: a.n() } }
pub fn key(a: &mut Args) -> PoolKey { PoolKey { token_x: act(a), token_y: act(a), fee_tier: tier(a) } }
pub fn keys(k: &PoolKey) -> String { format!("{} {} {} {}", acts(&k.token_x), acts(&k.token_y), k.fee_tier.fee.get(), k.fee_tier.tick_spacing) }
pub fn tick(a: &mut Args) -> Tick {
    Tick { index: a.i(), sign: a.b(), liquidity_change: a.d(), liquidity_gross: a.d(), sqrt_price: a.d(), fee_growth_outside_x: a.d(), fee_growth_outside_y: a.d(), seconds_outside: a.n() }
}
pub fn ticks(t: &Tick) -> String {
    format!("{} {} {} {} {} {} {} {}", t.index, t.sign as u8, t.liquidity_change.get(), t.liquidity_gross.get(), t.sqrt_price.get(), t.fee_growth_outside_x.get(), t.fee_growth_outside_y.get(), t.seconds_outside)
}
pub fn pool(a: &mut Args) -> Pool {
    Pool { liquidity: a.d(), sqrt_price: a.d(), current_tick_index: a.i(), fee_growth_global_x: a.d(), fee_growth_global_y: a.d(), fee_protocol_token_x: a.d(), fee_protocol_token_y: a.d(), start_timestamp: a.n(), last_timestamp: a.n(), fee_receiver: act(a) }
}
pub fn pools(p: &Pool) -> String {
    format!("{} {} {} {} {} {} {} {} {} {}", p.liquidity.get(), p.sqrt_price.get(), p.current_tick_index, p.fee_growth_global_x.get(), p.fee_growth_global_y.get(), p.fee_protocol_token_x.get(), p.fee_protocol_token_y.get(), p.start_timestamp, p.last_timestamp, acts(&p.fee_receiver))
}
pub fn pos(a: &mut Args) -> Position {
    Position { pool_key: key(a), liquidity: a.d(), lower_tick_index: a.i(), upper_tick_index: a.i(), fee_growth_inside_x: a.d(), fee_growth_inside_y: a.d(), last_block_number: a.n(), tokens_owed_x: a.d(), tokens_owed_y: a.d() }
}
pub fn poss(p: &Position) -> String {
    format!("{} {} {} {} {} {} {} {} {}", keys(&p.pool_key), p.liquidity.get(), p.lower_tick_index, p.upper_tick_index, p.fee_growth_inside_x.get(), p.fee_growth_inside_y.get(), p.last_block_number, p.tokens_owed_x.get(), p.tokens_owed_y.get())
}
fn st<T>(r: Result<T, InvariantError>) -> String { match r { Ok(_) => "ok".into(), Err(e) => format!("e{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap().into() } }
fn opt(o: Option<i32>) -> String { o.map_or("none".into(), |t| t.to_string()) }
/// rest of the line split at ';'
fn cmds<'a>(a: &mut Args<'a>) -> Vec<Vec<&'a str>> {
    let mut v = vec![vec![]];
    for t in a.0.by_ref() { if t == ";" { v.push(vec![]) } else { v.last_mut().unwrap().push(t) } }
    v
}
fn tmkey(n: u64, sp: u16) -> PoolKey { PoolKey { token_x: ActorId::from(1), token_y: ActorId::from(2 + n), fee_tier: FeeTier { fee: Percentage::new(0), tick_spacing: sp } } }

pub fn call(n: &str, a: &mut Args) -> R {
    Some(match n {
        "tick_create" => { let i = a.i(); let p = pool(a); ticks(&Tick::create(i, &p, a.n())) }
        "tick_cross" => { let mut t = tick(a); let mut p = pool(a); t.cross(&mut p, a.n()).ok()?; format!("{} {}", ticks(&t), pools(&p)) }
        "tick_update" => { let mut t = tick(a); t.update(a.d(), a.d(), a.b(), a.b()).ok()?; ticks(&t) }
        "pool_create" => { let (s, i, now, sp) = (a.d(), a.i(), a.n(), a.n()); pools(&Pool::create(s, i, now, sp, act(a)).ok()?) }
        "add_fee" => { let mut p = pool(a); p.add_fee(a.d(), a.b(), a.d()).ok()?; pools(&p) }
        "pool_liq" => { let mut p = pool(a); let (x, y) = p.update_liquidity(a.d(), a.b(), a.i(), a.i()).ok()?; format!("{} {} {}", x.get(), y.get(), pools(&p)) }
        "withdraw_pf" => { let mut p = pool(a); let (x, y) = p.withdraw_protocol_fee(PoolKey::default()); format!("{} {} {}", x.get(), y.get(), pools(&p)) }
        "update_tick" => {
            let mut p = pool(a); let r = SwapResult { next_sqrt_price: a.d(), amount_in: a.d(), amount_out: a.d(), fee_amount: a.d() };
            let lim: SqrtPrice = a.d();
            let mut t = match a.s() { "none" => UpdatePoolTick::NoTick, "un" => UpdatePoolTick::TickUninitialized(a.i()), _ => UpdatePoolTick::TickInitialized(tick(a)) };
            let (rem, bi, xy, now, pf) = (a.d(), a.b(), a.b(), a.n(), a.d());
            let (tot, left, crossed) = p.update_tick(r, lim, &mut t, rem, bi, xy, now, pf, tier(a));
            let ts = match &t { UpdatePoolTick::NoTick => "none".into(), UpdatePoolTick::TickUninitialized(i) => format!("un {i}"), UpdatePoolTick::TickInitialized(t) => format!("in {}", ticks(t)) };
            format!("{} {} {} {} {}", tot.get(), left.get(), crossed as u8, pools(&p), ts)
        }
        "pos_modify" => {
            let mut q = pos(a); let mut p = pool(a); let mut u = tick(a); let mut l = tick(a);
            let (x, y) = q.modify(&mut p, &mut u, &mut l, a.d(), a.b(), a.n(), a.n()).ok()?;
            format!("{} {} {} {} {} {}", x.get(), y.get(), poss(&q), pools(&p), ticks(&u), ticks(&l))
        }
        "pos_claim" => {
            let mut q = pos(a); let mut p = pool(a); let mut u = tick(a); let mut l = tick(a);
            let (x, y) = q.claim_fee(&mut p, &mut u, &mut l, a.n());
            format!("{} {} {} {} {} {}", x.get(), y.get(), poss(&q), pools(&p), ticks(&u), ticks(&l))
        }
        "pos_create" => {
            let k = key(a); let mut p = pool(a); let mut u = tick(a); let mut l = tick(a);
            let (now, liq, sl, su, bn, sp) = (a.n(), a.d(), a.d(), a.d(), a.n(), a.n());
            let (q, x, y) = Position::create(&mut p, k, &mut l, &mut u, now, liq, sl, su, bn, sp).ok()?;
            format!("{} {} {} {} {} {}", x.get(), y.get(), poss(&q), pools(&p), ticks(&u), ticks(&l))
        }
        "pos_remove" => {
            let mut q = pos(a); let mut p = pool(a); let mut u = tick(a); let mut l = tick(a);
            let (x, y, dl, du) = q.remove(&mut p, a.n(), &mut l, &mut u, a.n());
            format!("{} {} {} {} {} {} {}", x.get(), y.get(), dl as u8, du as u8, pools(&p), ticks(&u), ticks(&l))
        }
        "pos_update" => { let mut q = pos(a); q.update(a.b(), a.d(), a.d(), a.d()).ok()?; poss(&q) }
        "poolkey" => keys(&PoolKey::new(act(a), act(a), tier(a)).ok()?),
        "feetier" => { let t = FeeTier::new(a.d(), a.n()).ok()?; format!("{} {}", t.fee.get(), t.tick_spacing) }
        "search_limit" => get_search_limit(a.i(), a.n(), a.b()).to_string(),
        "t2p" => { let (c, b) = tick_to_position(a.i(), a.n()); format!("{c} {b}") }
        "p2t" => position_to_tick(a.n(), a.n(), a.n()).to_string(),
        "max_chunk" => get_max_chunk(a.n()).to_string(),
        // tm spacing ; op .. ; op ..    (each op answered, answers joined by ';')
        "tm" => {
            let sp: u16 = a.n(); let mut m = Tickmap::default(); let mut out = vec![];
            for c in cmds(a) {
                if c.is_empty() { continue }
                let j = c[1..].join(" "); let mut b = Args(j.split_whitespace());
                out.push(match c[0] {
                    "flip" => { let k = tmkey(b.n(), sp); m.flip(b.b(), b.i(), sp, k); "ok".into() }
                    "get" => { let k = tmkey(b.n(), sp); (m.get(b.i(), sp, k) as u8).to_string() }
                    "next" => { let k = tmkey(b.n(), sp); opt(m.next_initialized(b.i(), sp, k)) }
                    "prev" => { let k = tmkey(b.n(), sp); opt(m.prev_initialized(b.i(), sp, k)) }
                    "limit" => { let k = tmkey(b.n(), sp); match m.get_closer_limit(b.d(), b.b(), b.i(), sp, k) { Ok((p, None)) => format!("{} none", p.get()), Ok((p, Some((t, i)))) => format!("{} {} {}", p.get(), t, i as u8), Err(_) => "err".into() } }
                    x => panic!("op {x}"),
                });
            }
            out.join(";")
        }
        "positions" => {
            let mut m = Positions::default(); let mut out = vec![];
            let mk = |l: u64| Position { liquidity: Liquidity::new(U256::from(l)), ..Position::default() };
            for c in cmds(a) {
                if c.is_empty() { continue }
                let j = c[1..].join(" "); let mut b = Args(j.split_whitespace());
                out.push(match c[0] {
                    "add" => { let w = act(&mut b); m.add(&w, &mk(b.n())); "ok".into() }
                    "upd" => { let w = act(&mut b); st(m.update(&w, b.n(), &mk(b.n()))) }
                    "rem" => { let w = act(&mut b); match m.remove(&w, b.n()) { Ok(p) => p.liquidity.get().to_string(), e => st(e) } }
                    "tra" => { let w = act(&mut b); let i = b.n(); st(m.transfer(&w, i, &act(&mut b))) }
                    "get" => { let w = act(&mut b); match m.get(&w, b.n()) { Ok(p) => p.liquidity.get().to_string(), e => st(e) } }
                    "all" => { let w = act(&mut b); m.get_all(&w).iter().map(|p| p.liquidity.get().to_string()).collect::<Vec<_>>().join(",") }
                    "sli" => { let w = act(&mut b); m.get_slice(&w, b.n(), b.n()).iter().map(|p| p.liquidity.get().to_string()).collect::<Vec<_>>().join(",") }
                    "len" => m.get_length(&act(&mut b)).to_string(),
                    x => panic!("op {x}"),
                });
            }
            out.join(";")
        }
        "registry" => {
            let (mut ps, mut ks, mut fs, mut ts) = (Pools::default(), PoolKeys::default(), FeeTiers::default(), Ticks::default()); let mut out = vec![];
            let mkp = |l: u64| Pool { liquidity: Liquidity::new(U256::from(l)), ..Pool::default() };
            let mkt = |i: i32, l: u64| Tick { index: i, liquidity_gross: Liquidity::new(U256::from(l)), ..Tick::default() };
            for c in cmds(a) {
                if c.is_empty() { continue }
                let j = c[1..].join(" "); let mut b = Args(j.split_whitespace());
                out.push(match c[0] {
                    "padd" => { let k = key(&mut b); st(ps.add(&k, &mkp(b.n()))) }
                    "pupd" => { let k = key(&mut b); st(ps.update(&k, &mkp(b.n()))) }
                    "prem" => st(ps.remove(&key(&mut b))),
                    "pget" => match ps.get(&key(&mut b)) { Ok(p) => p.liquidity.get().to_string(), e => st(e) },
                    "kadd" => st(ks.add(&key(&mut b))),
                    "krem" => st(ks.remove(&key(&mut b))),
                    "kidx" => ks.get_index(&key(&mut b)).map_or("none".into(), |i| i.to_string()),
                    "khas" => (ks.contains(&key(&mut b)) as u8).to_string(),
                    "kall" => ks.get_all(b.n(), b.n()).iter().map(keys).collect::<Vec<_>>().join(","),
                    "kcnt" => ks.count().to_string(),
                    "fadd" => st(fs.add(&tier(&mut b))),
                    "frem" => st(fs.remove(&tier(&mut b))),
                    "fhas" => (fs.contains(&tier(&mut b)) as u8).to_string(),
                    "fall" => fs.get_all().iter().map(|t| format!("{} {}", t.fee.get(), t.tick_spacing)).collect::<Vec<_>>().join(","),
                    "tadd" => { let k = key(&mut b); let i = b.i(); st(ts.add(k, i, mkt(i, b.n()))) }
                    "tupd" => { let k = key(&mut b); let i = b.i(); st(ts.update(k, i, mkt(i, b.n()))) }
                    "trem" => { let k = key(&mut b); st(ts.remove(k, b.i())) }
                    "tget" => { let k = key(&mut b); match ts.get(k, b.i()) { Ok(t) => format!("{} {}", t.index, t.liquidity_gross.get()), e => st(e) } }
                    x => panic!("op {x}"),
                });
            }
            out.join(";")
        }
        "ledger" => {
            let mut v = Invariant::default(); let mut out = vec![];
            for c in cmds(a) {
                if c.is_empty() { continue }
                let j = c[1..].join(" "); let mut b = Args(j.split_whitespace());
                let (w, t) = (act(&mut b), act(&mut b));
                out.push(match c[0] {
                    "inc" => st(v.increase_token_balance(&t, &w, b.d())),
                    "can" => (v.can_increase_token_balance(&t, &w, b.d()) as u8).to_string(),
                    "dec" => match v.decrease_token_balance(&t, &w, Some(b.d())) { Ok(x) => x.get().to_string(), e => st(e) },
                    "all" => match v.decrease_token_balance(&t, &w, None) { Ok(x) => x.get().to_string(), e => st(e) },
                    x => panic!("op {x}"),
                });
                let mut d: Vec<String> = v.balances.iter().flat_map(|(w, m)| m.iter().map(move |(t, x)| format!("{} {} {}", acts(w), acts(t), x.get()))).collect(); d.sort();
                out.push(d.join(","));
            }
            out.join(";")
        }
        x => panic!("unknown function {x}"),
    })
}
