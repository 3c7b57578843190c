//! Line server over the whole service, on the host stand-ins of gstd/sails.
//! An operation that panics must leave no trace (Gear reverts the message), so it is first tried in a forked copy of
//! this process and only executed here when it comes back.
use crate::ctrsrv::*;
use crate::mathsrv::Args;
use contracts::*;
use decimal::*;
use gstd::{deliver, with, Leave, Reply};
use harness::invariant_service::InvariantService;
use harness::invariant_storage::{Invariant, InvariantStorage};
use io::*;
use math::types::{percentage::*, sqrt_price::*, token_amount::*};
use parity_scale_codec::{Decode, Encode};
use sails_rs::gstd::GStdExecContext;
use sails_rs::{ActorId, MessageId, U256};
use std::future::Future;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32; }

type Svc = InvariantService<GStdExecContext>;
type Fut = Pin<Box<dyn Future<Output = String>>>;
enum Out { Done(String), Leave, Panic(String) }

fn run(f: &mut dyn FnMut() -> String) -> Out {
    match catch_unwind(AssertUnwindSafe(|| f())) {
        Ok(s) => Out::Done(s),
        Err(e) if e.is::<Leave>() => Out::Leave,
        Err(e) => Out::Panic(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}
/// try in a copy; commit here unless it panics
fn trial(f: &mut dyn FnMut() -> String) -> Out {
    let (mut r, mut w) = std::os::unix::net::UnixStream::pair().unwrap();
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { setitimer(2, &[0, 0, 10, 0], std::ptr::null_mut()); }   // 10 s of processor time
        let m = match run(f) { Out::Panic(m) => format!("P{m}"), _ => "K".into() };
        let _ = w.write_all(m.as_bytes()); let _ = w.flush();
        unsafe { _exit(0) }
    }
    drop(w);
    let mut s = String::new(); let _ = r.read_to_string(&mut s);
    let mut stt = 0; unsafe { waitpid(pid, &mut stt, 0); }
    match s.chars().next() { Some('K') => run(f), Some('P') => Out::Panic(s[1..].to_string()), _ if stt & 127 == 27 => Out::Panic("HANG".into()), _ => Out::Panic("abort".into()) }
}

pub struct Server { tasks: Vec<(u64, Fut, Vec<MessageId>)>, next: u64 }
fn svc() -> &'static mut Svc { Box::leak(Box::new(Svc::new(GStdExecContext::new()))) }
fn optam(a: &mut Args) -> Option<TokenAmount> { match a.s() { "-" => None, s => Some(TokenAmount::new(U256::from_dec_str(s).unwrap())) } }
fn ta(x: TokenAmount) -> String { x.get().to_string() }
fn tlist(v: &[Tick]) -> String { v.iter().map(ticks).collect::<Vec<_>>().join(",") }
fn hops(a: &mut Args) -> Vec<SwapHop> { let n: usize = a.n(); (0..n).map(|_| SwapHop { pool_key: key(a), x_to_y: a.b() }).collect() }
fn er<T>(r: Result<T, InvariantError>, f: impl FnOnce(T) -> String) -> String { match r { Ok(t) => f(t), Err(e) => { let m: String = e.into(); format!("err {}", m.replace(' ', "_")) } } }

/// the operations that complete in one message
fn sync_op(n: &str, line: &str) -> String {
    let mut aa = Args(line.split_whitespace()); let a = &mut aa; let s = svc();
    match n {
        "change_protocol_fee" => s.change_protocol_fee(a.d()).get().to_string(),
        "add_fee_tier" => { s.add_fee_tier(tier(a)); String::new() }
        "remove_fee_tier" => { s.remove_fee_tier(tier(a)); String::new() }
        "create_pool" => { s.create_pool(act(a), act(a), tier(a), a.d(), a.i()); String::new() }
        "change_fee_receiver" => { s.change_fee_receiver(key(a), act(a)); String::new() }
        "create_position" => poss(&s.create_position(key(a), a.i(), a.i(), a.d(), a.d(), a.d())),
        "remove_position" => { let (x, y) = s.remove_position(a.n()); format!("{} {}", ta(x), ta(y)) }
        "transfer_position" => { s.transfer_position(a.n(), act(a)); String::new() }
        "claim_fee" => { let (x, y) = s.claim_fee(a.n()); format!("{} {}", ta(x), ta(y)) }
        "swap" => {
            let r = s.swap(key(a), a.b(), a.d(), a.b(), a.d());
            format!("{} {} {} {} {} | {} | {}", ta(r.amount_in), ta(r.amount_out), r.start_sqrt_price.get(), r.target_sqrt_price.get(), ta(r.fee), pools(&r.pool), tlist(&r.ticks))
        }
        "swap_route" => { let (i, e, sl): (TokenAmount, TokenAmount, Percentage) = (a.d(), a.d(), a.d()); ta(s.swap_route(i, e, sl, hops(a))) }
        "withdraw_protocol_fee" => { s.withdraw_protocol_fee(key(a)); String::new() }
        "deposit_vara" => ta(s.deposit_vara()),
        "withdraw_vara" => ta(s.withdraw_vara(optam(a))),
        // ---- queries
        "quote" => er(s.quote(key(a), a.b(), a.d(), a.b(), a.d()), |r| format!("{} {} {} | {}", ta(r.amount_in), ta(r.amount_out), r.target_sqrt_price.get(), tlist(&r.ticks))),
        "quote_route" => { let i: TokenAmount = a.d(); er(s.quote_route(i, hops(a)), ta) }
        "get_protocol_fee" => s.get_protocol_fee().get().to_string(),
        "fee_tier_exists" => (s.fee_tier_exists(tier(a)) as u8).to_string(),
        "get_fee_tiers" => s.get_fee_tiers().iter().map(|t| format!("{} {}", t.fee.get(), t.tick_spacing)).collect::<Vec<_>>().join(","),
        "get_pool" => er(s.get_pool(act(a), act(a), tier(a)), |p| pools(&p)),
        "get_pool_keys" => { let (v, c) = s.get_pool_keys(a.n(), a.n()); format!("{} | {}", v.iter().map(keys).collect::<Vec<_>>().join(","), c) }
        "get_position" => er(s.get_position(act(a), a.n()), |p| poss(&p)),
        "get_tick" => er(s.get_tick(key(a), a.i()), |t| ticks(&t)),
        "is_tick_initialized" => (s.is_tick_initialized(key(a), a.i()) as u8).to_string(),
        "get_all_positions" => s.get_all_positions(act(a)).iter().map(poss).collect::<Vec<_>>().join(","),
        "get_positions" => er(s.get_positions(act(a), a.n(), a.n()), |(v, c)| format!("{} | {}", v.iter().map(|(p, l)| format!("{}:{}", pools(p), l.iter().map(|(p, i)| format!("{i} {}", poss(p))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join("/"), c)),
        "get_position_with_associates" => er(s.get_position_with_associates(act(a), a.n()), |(p, q, l, u)| format!("{},{},{},{}", poss(&p), pools(&q), ticks(&l), ticks(&u))),
        "get_user_position_amount" => s.get_user_position_amount(act(a)).to_string(),
        "get_liquidity_ticks_amount" => s.get_liquidity_ticks_amount(key(a)).to_string(),
        "get_all_pools_for_pair" => er(s.get_all_pools_for_pair(act(a), act(a)), |v| v.iter().map(|(t, p)| format!("{} {} {}", t.fee.get(), t.tick_spacing, pools(p))).collect::<Vec<_>>().join(",")),
        "get_user_balances" => { let mut v: Vec<String> = s.get_user_balances(act(a)).iter().map(|(t, x)| format!("{} {}", acts(t), ta(*x))).collect(); v.sort(); v.join(",") }
        "get_tickmap" => s.get_tickmap(key(a)).iter().map(|(c, b)| format!("{c} {b}")).collect::<Vec<_>>().join(","),
        "get_liquidity_ticks" => { let k = key(a); let n: usize = a.n(); er(s.get_liquidity_ticks(k, (0..n).map(|_| a.i()).collect()), |v| v.iter().map(|t| format!("{} {} {}", t.index, t.liquidity_change.get(), t.sign as u8)).collect::<Vec<_>>().join(",")) }
        "get_position_ticks" => s.get_position_ticks(act(a), a.n()).iter().map(|t| format!("{} {} {} {}", t.index, t.fee_growth_outside_x.get(), t.fee_growth_outside_y.get(), t.seconds_outside)).collect::<Vec<_>>().join(","),
        x => panic!("range: unknown op {x}"),
    }
}
fn async_op(n: &str, line: &str) -> Option<Fut> {
    let mut aa = Args(line.split_whitespace()); let a = &mut aa; let s = svc();
    Some(match n {
        "deposit_single_token" => { let (t, x) = (act(a), a.d()); Box::pin(async move { ta(s.deposit_single_token(t, x).await) }) }
        "withdraw_single_token" => { let (t, x) = (act(a), optam(a)); Box::pin(async move { ta(s.withdraw_single_token(t, x).await) }) }
        "deposit_token_pair" => { let (t, x, u, y) = (act(a), a.d(), act(a), a.d()); Box::pin(async move { let (p, q) = s.deposit_token_pair((t, x), (u, y)).await; format!("{} {}", ta(p), ta(q)) }) }
        "withdraw_token_pair" => { let (t, x, u, y) = (act(a), optam(a), act(a), optam(a)); Box::pin(async move { let (p, q) = s.withdraw_token_pair((t, x), (u, y)).await; format!("{} {}", ta(p), ta(q)) }) }
        _ => return None,
    })
}
fn poll(f: &mut Fut) -> String {
    let w = futures::task::noop_waker(); let mut c = Context::from_waker(&w);
    match f.as_mut().poll(&mut c) { Poll::Ready(s) => format!("done {s}"), Poll::Pending => "pending".into() }
}
/// everything stored, read without going through the service's own queries: accounts, then keys each with its ticks
fn dump(line: &str) -> String {
    let mut aa = Args(line.split_whitespace()); let a = &mut aa; let v: &Invariant = InvariantStorage::as_ref();
    let mut o = vec![format!("cfg {} {}", acts(&v.config.admin), v.config.protocol_fee.get())];
    for t in v.fee_tiers.get_all() { o.push(format!("ft {} {}", t.fee.get(), t.tick_spacing)); }
    for i in 0..v.pool_keys.count() { for k in v.pool_keys.get_all(1, i) { o.push(format!("pk {}", keys(&k))); } }
    let n: usize = a.n();
    for _ in 0..n { let w = act(a); let l = v.positions.get_length(&w); for i in 0..l + 2 { if let Ok(p) = v.positions.get(&w, i) { o.push(format!("po {} {i} {}", acts(&w), poss(p))); } } o.push(format!("pl {} {l}", acts(&w))); }
    let n: usize = a.n();
    for _ in 0..n {
        let k = key(a); let m: usize = a.n();
        if let Ok(p) = v.pools.get(&k) { o.push(format!("pool {} {}", keys(&k), pools(&p))); }
        for _ in 0..m { let i = a.i(); if let Ok(t) = v.ticks.get(k, i) { o.push(format!("tk {} {i} {}", keys(&k), ticks(t))); } }
    }
    let mut b: Vec<String> = v.tickmap.bitmap.iter().filter(|(_, x)| **x != 0).map(|((c, k), x)| format!("bm {} {c} {x}", keys(k))).collect(); b.sort(); o.extend(b);
    let mut b: Vec<String> = v.balances.iter().flat_map(|(w, m)| m.iter().map(move |(t, x)| format!("ba {} {} {}", acts(w), acts(t), ta(*x)))).collect(); b.sort(); o.extend(b);
    let mut b: Vec<String> = v.awaiting_transfers.iter().map(|((m, t), w)| format!("aw {} {} {} {} {}", u64::from_le_bytes(m.into_bytes()[..8].try_into().unwrap()), acts(t), acts(&w.account), ta(w.amount), matches!(w.transfer_type, TransferType::Deposit) as u8)).collect(); b.sort(); o.extend(b);
    o.join(";")
}
fn mid(m: &MessageId) -> u64 { u64::from_le_bytes(m.into_bytes()[..8].try_into().unwrap()) }
/// what was sent during this operation
fn sent() -> String {
    with(|h| {
        let mut o: Vec<String> = h.sent.drain(..).map(|m| {
            let mut p = &m.payload[..];
            let d = (|| { let (s, f) = (String::decode(&mut p).ok()?, String::decode(&mut p).ok()?); let (x, y, z) = (ActorId::decode(&mut p).ok()?, ActorId::decode(&mut p).ok()?, U256::decode(&mut p).ok()?); if p.is_empty() { Some(format!("{s} {f} {} {} {z}", acts(&x), acts(&y))) } else { None } })();
            format!("msg {} {} {} {}", mid(&m.id), acts(&m.to), m.value, d.unwrap_or("other".into()))
        }).collect();
        o.extend(h.replies_out.drain(..).map(|(_, v)| format!("rep {v}")));
        h.events.clear();
        o.join(",")
    })
}
fn show(o: Out) -> String {
    match o { Out::Done(s) => format!("ok {s} # {}", sent()), Out::Leave => format!("leave # {}", sent()), Out::Panic(m) if m == "HANG" => "hang".into(), Out::Panic(m) => { format!("panic {}", m.replace([' ', '\n'], "_")) } }
}
impl Server {
    pub fn new() -> Self { Server { tasks: vec![], next: 1 } }
    pub fn line(&mut self, l: &str) -> String {
        let (n, rest) = l.split_once(' ').unwrap_or((l, ""));
        let mut aa = Args(rest.split_whitespace()); let a = &mut aa;
        match n {
            "init" => {
                self.tasks.clear(); self.next = 1;
                with(|h| { let p = act(a); *h = gstd::Host { program: p, gas: u64::MAX, ..Default::default() } });
                let config = InvariantConfig { admin: act(a), protocol_fee: a.d() };
                if InvariantStorage::is_set() { *InvariantStorage::as_mut() = Invariant { config, ..Invariant::default() } } else { Svc::seed(config) }
                "ok".into()
            }
            "env" => { with(|h| { h.source = act(a); h.value = a.n(); h.timestamp = a.n(); h.height = a.n(); h.gas = a.n(); }); "ok".into() }
            "dump" => dump(rest),
            // rawreply TOKEN MESSAGE-ID kind : the reply handler runs for a reply nobody waits for (or a second time)
            "rawreply" => {
                let (t, id) = (act(a), MessageId::from(a.n::<u64>()));
                let b = match a.s() { "true" => ("Vft", "TransferFrom", true).encode(), "false" => ("Vft", "TransferFrom", false).encode(), "panic" => "token panicked".encode(), _ => vec![0xff; 5] };
                show(trial(&mut || { with(|h| h.current_payload = b.clone()); harness::invariant_service::reply_handler(t, id); String::new() }))
            }
            // reply MESSAGE-ID kind : the token answers (in a message of its own), then the waiting call goes on
            "reply" => {
                let id = MessageId::from(a.n::<u64>());
                let r = match a.s() {
                    "true" => Reply::Bytes(("Vft", "TransferFrom", true).encode()), "false" => Reply::Bytes(("Vft", "TransferFrom", false).encode()),
                    "panic" => Reply::Error("token panicked".encode()), "str" => Reply::Bytes("token panicked".encode()), "other" => Reply::Bytes(("Vft", "Mint", true).encode()), "svc" => Reply::Bytes(("Other", "TransferFrom", true).encode()),
                    "junk" => Reply::Bytes(vec![0xff, 0xff, 0xff, 0xff, 0xff]), "empty" => Reply::Bytes(vec![]), "errjunk" => Reply::Error(vec![0xff, 0xff, 0xff, 0xff]), x => panic!("kind {x}"),
                };
                if with(|h| h.resolved.contains_key(&id)) { return "dup".into() }
                let mut r1 = Some(r.clone());
                let first = trial(&mut || { deliver(id, r1.take().unwrap()); String::new() });
                if let Out::Panic(_) = &first { with(|h| { h.hooks.remove(&id); h.resolved.insert(id, r.clone()); }) }
                let mut s = show(first);
                if let Some(i) = self.tasks.iter().position(|(_, _, w)| w.contains(&id)) {
                    let t = &mut self.tasks[i].1;
                    let o = trial(&mut || poll(t));
                    let over = !matches!(&o, Out::Done(x) if x == "pending");
                    s = format!("{s} / {} {}", self.tasks[i].0, show(o));
                    if over { let t = self.tasks.remove(i); std::mem::forget(t) }
                }
                s
            }
            _ => {
                if let Some(f) = async_op(n, rest) {
                    let mut f = Some(f);
                    let o = trial(&mut || { let t = f.as_mut().unwrap(); poll(t) });
                    if let Out::Done(x) = &o {
                        if x == "pending" {
                            let ids: Vec<MessageId> = with(|h| h.sent.iter().map(|m| m.id).collect());
                            self.tasks.push((self.next, f.take().unwrap(), ids));
                            self.next += 1; return format!("ok task {} # {}", self.next - 1, sent())
                        }
                    }
                    if let Some(f) = f.take() { std::mem::forget(f) }
                    return show(o)
                }
                show(trial(&mut || sync_op(n, rest)))
            }
        }
    }
}
