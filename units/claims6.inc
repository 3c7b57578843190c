/// swapping the last position into a gap and dropping it: the claims fall by those of the position taken out
pub proof fn l_pm_out_cf(m: PM, u: ActorId, n: u32, last: u32, isx: bool, k: PoolKey, q: Pool, t: TM) requires m.dom().contains((u, n)), m.dom().contains((u, last)) ensures rsum(pm_out(m, u, n, last), cf(isx, k, q, t)) == rsum(m, cf(isx, k, q, t)) - cf(isx, k, q, t)((u, n), m[(u, n)]) {
    let f = cf(isx, k, q, t); if n == last { l_rsum_take(m, f, (u, last)); } else { let m2 = m.insert((u, n), m[(u, last)]); l_rsum_set(m, f, (u, n), m[(u, last)]); l_rsum_take(m2, f, (u, last)); }
}
/// a tick that some position left ends at has not gone, and keeps its counters
pub proof fn l_left_end(isx: bool, a: Invariant, b: Invariant, k: PoolKey, lo: i32, up: i32, l: int, j: PoolKey, i: i32)
    requires thas(a.ticks, j, i), thas(b.ticks, j, i), tick_left(a, b, k, lo, l, false), tick_left(a, b, k, up, l, true), forall|j: PoolKey, i: i32| !(j == k && (i == lo || i == up)) ==> #[trigger] thas(b.ticks, j, i) == thas(a.ticks, j, i) && b.tick(j, i) == a.tick(j, i) ensures same_end(isx, a.tick(j, i), b.tick(j, i)) {
    if j == k && (i == lo || i == up) {} else { let g = thas(b.ticks, j, i); assert(b.tick(j, i) == a.tick(j, i)); }
}
pub proof fn l_removed_claims(a: Invariant, b: Invariant, u: ActorId, n: int, x: int, y: int, isx: bool, j: PoolKey)
    requires a.wf(), b.wf(), removed(a, b, u, n, x, y), n >= 0
    ensures ({ let k = a.positions.list(u)[n].pool_key; claims(isx, j, b.positions.pm(), if j == k { b.pool(k) } else { a.pool(j) }, b.ticks.ticks.m()) <= claims(isx, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m()) - (if j == k { (if isx { x } else { y }) as real } else { 0real }) })
{
    let z = a.positions.list(u)[n]; let k = z.pool_key; let (lo, up, l) = (z.lower_tick_index, z.upper_tick_index, z.liquidity.d()); let i = n as u32; let last = (a.positions.len(u) - 1) as u32;
    let (m, m2, t, t2) = (a.positions.pm(), b.positions.pm(), a.ticks.ticks.m(), b.ticks.ticks.m()); let q = if j == k { b.pool(k) } else { a.pool(j) }; let p = a.pool(j); l_pm_out(a.positions, b.positions, u, i); let e = (u, i); a.positions.l_at(u, i); assert(m[e] == z);
    l_pwf(a.pools, a.pool_keys, k); l_sums_pos(m, a.ticks, a.pools, e); l_pm_out_cf(m, u, i, last, isx, j, p, t);
    assert forall|x: (ActorId, u32)| #[trigger] inr(m2, x) && m2[x].pool_key == j implies same_end(isx, t[(j, m2[x].lower_tick_index)], t2[(j, m2[x].lower_tick_index)]) && same_end(isx, t[(j, m2[x].upper_tick_index)], t2[(j, m2[x].upper_tick_index)]) by {
        let z2 = m2[x]; l_sums_pos(m2, b.ticks, b.pools, x); let y = if x == e { (u, last) } else { x }; assert(inr(m, y) && m[y] == z2); l_sums_pos(m, a.ticks, a.pools, y); assert(thas(a.ticks, j, z2.lower_tick_index) && thas(a.ticks, j, z2.upper_tick_index)); assert(thas(b.ticks, j, z2.lower_tick_index) && thas(b.ticks, j, z2.upper_tick_index));
        l_left_end(isx, a, b, k, lo, up, l, j, z2.lower_tick_index); l_left_end(isx, a, b, k, lo, up, l, j, z2.upper_tick_index); }
    l_claims_eq(isx, j, m2, p, q, t, t2);
    if j == k { l_due(isx, a, z); l_twf(a.ticks, a.tickmap, a.pools, k, lo); l_twf(a.ticks, a.tickmap, a.pools, k, up); l_worth_pos(k, p.sqrt_price.d(), p.current_tick_index as int, lo as int, up as int, l); }
}
pub proof fn l_owes_removed(a: Invariant, b: Invariant, u: ActorId, n: int, x: int, y: int)
    requires a.wf(), b.wf(), removed(a, b, u, n, x, y), n >= 0 ensures no_more(a, b)
{
    let k = a.positions.list(u)[n].pool_key; l_pwf(a.pools, a.pool_keys, k); l_removed_claims(a, b, u, n, x, y, true, k); l_removed_claims(a, b, u, n, x, y, false, k);
    assert forall|j: PoolKey, isx: bool| j != k implies #[trigger] claims(isx, j, b.positions.pm(), a.pool(j), b.ticks.ticks.m()) <= claims(isx, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m()) by { l_removed_claims(a, b, u, n, x, y, isx, j); }
    l_settle(a, b, u, k, x, y);
}
/// handing a position over moves its claim along
pub proof fn l_owes_moved(a: Invariant, b: Invariant, u: ActorId, n: u32, w: ActorId)
    requires a.wf(), b.wf(), a.positions.len(w) < u32::MAX, n < a.positions.len(u), b == (Invariant { positions: b.positions, ..a }), ({ let (l, p) = (swap_out(a.positions.list(u), n as int), a.positions.list(u)[n as int]); (forall|v: ActorId| v != u && v != w ==> #[trigger] b.positions.list(v) == a.positions.list(v)) && if u == w { b.positions.list(u) == l.push(p) } else { b.positions.list(u) == l && b.positions.list(w) == a.positions.list(w).push(p) } })
    ensures no_more(a, b)
{
    l_pm_move(a.positions, b.positions, u, n, w); let m = a.positions.pm(); let last = (a.positions.len(u) - 1) as u32; let m1 = pm_out(m, u, n, last); let x = (w, if u == w { last } else { a.positions.len(w) as u32 });
    assert forall|t: ActorId| #[trigger] debts(b, t) <= debts(a, t) by {
        let (f, g) = (pool_debt(t, m, a.ticks.ticks.m()), pool_debt(t, b.positions.pm(), a.ticks.ticks.m())); let ps = a.pools.pools.m();
        assert forall|k: PoolKey| #[trigger] inr(ps, k) implies g(k, ps[k]) <= f(k, ps[k]) by { l_moved_claims(m, u, n, last, x, true, k, ps[k], a.ticks.ticks.m()); l_moved_claims(m, u, n, last, x, false, k, ps[k], a.ticks.ticks.m()); }
        l_rsum_le(ps, ps, g, f); }
}
pub proof fn l_moved_claims(m: PM, u: ActorId, n: u32, last: u32, x: (ActorId, u32), isx: bool, k: PoolKey, q: Pool, t: TM) requires m.dom().contains((u, n)), m.dom().contains((u, last)), !pm_out(m, u, n, last).dom().contains(x) ensures claims(isx, k, pm_out(m, u, n, last).insert(x, m[(u, n)]), q, t) == claims(isx, k, m, q, t) {
    l_pm_out_cf(m, u, n, last, isx, k, q, t); l_rsum_new(pm_out(m, u, n, last), cf(isx, k, q, t), x, m[(u, n)]);
}
/// only a pool's record changes, not its price, tick or counters
pub proof fn l_owes_record(a: Invariant, b: Invariant, u: ActorId, k: PoolKey, vx: int, vy: int)
    requires a.wf(), phas(a.pools, k), b == (Invariant { pools: b.pools, balances: b.balances, ..a }), b.pools.pools.m() == a.pools.pools.m().insert(k, b.pool(k)), ({ let (p, q) = (a.pool(k), b.pool(k)); q.current_tick_index == p.current_tick_index && q.sqrt_price == p.sqrt_price && q.fee_growth_global_x == p.fee_growth_global_x && q.fee_growth_global_y == p.fee_growth_global_y && fp_of(true, q) == fp_of(true, p) - vx && fp_of(false, q) == fp_of(false, p) - vy }),
        forall|w: ActorId, t: ActorId| #[trigger] lbal(b.balances, w, t) == lbal(a.balances, w, t) + (if w == u && t == k.token_x { vx } else if w == u && t == k.token_y { vy } else { 0 })
    ensures no_more(a, b)
{
    l_pwf(a.pools, a.pool_keys, k); let (m, p, q, t) = (a.positions.pm(), a.pool(k), b.pool(k), a.ticks.ticks.m()); l_claims_eq(true, k, m, p, q, t, t); l_claims_eq(false, k, m, p, q, t, t); l_settle(a, b, u, k, vx, vy);
}
pub proof fn l_owes_fee_taken(a: Invariant, b: Invariant, u: ActorId, k: PoolKey)
    requires a.wf(), phas(a.pools, k), ({ let (p, q) = (a.pool(k), b.pool(k)); q == (Pool { fee_protocol_token_x: q.fee_protocol_token_x, fee_protocol_token_y: q.fee_protocol_token_y, ..p }) && q.fee_protocol_token_x.d() == 0 && q.fee_protocol_token_y.d() == 0
            && b == (Invariant { pools: b.pools, balances: b.balances, ..a }) && b.pools.pools.m() == a.pools.pools.m().insert(k, q)
            && pair_given(b, a, u, k.token_x, p.fee_protocol_token_x.d(), k.token_y, p.fee_protocol_token_y.d()) })
    ensures no_more(a, b)
{ l_owes_record(a, b, u, k, a.pool(k).fee_protocol_token_x.d(), a.pool(k).fee_protocol_token_y.d()); }
pub proof fn l_owes_receiver(a: Invariant, b: Invariant, k: PoolKey, fee_receiver: ActorId)
    requires a.wf(), phas(a.pools, k), b == (Invariant { pools: b.pools, ..a }), b.pools.pools.m() == a.pools.pools.m().insert(k, Pool { fee_receiver, ..a.pool(k) })
    ensures no_more(a, b)
{ l_owes_record(a, b, fee_receiver, k, 0, 0); }
/// a new pool owes nothing
pub proof fn l_owes_pool(a: Invariant, b: Invariant, k: PoolKey)
    requires a.wf(), !phas(a.pools, k), b == (Invariant { pools: b.pools, pool_keys: b.pool_keys, ..a }), b.pools.pools.m() == a.pools.pools.m().insert(k, b.pool(k)), b.pool(k).fee_protocol_token_x.d() == 0, b.pool(k).fee_protocol_token_y.d() == 0
    ensures no_more(a, b)
{
    let (m, q, t) = (a.positions.pm(), b.pool(k), a.ticks.ticks.m());
    assert forall|z: ActorId| #[trigger] debts(b, z) <= debts(a, z) by { l_no_claims(true, a, k, q); l_no_claims(false, a, k, q); l_rsum_new(a.pools.pools.m(), pool_debt(z, m, t), k, q); }
}
pub proof fn l_no_claims(isx: bool, a: Invariant, k: PoolKey, q: Pool) requires a.wf(), !phas(a.pools, k), fp_of(isx, q) == 0 ensures claims(isx, k, a.positions.pm(), q, a.ticks.ticks.m()) <= 0real {
    let m = a.positions.pm(); let f = cf(isx, k, q, a.ticks.ticks.m()); let z = |x: (ActorId, u32), p: Position| 0real;
    assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) implies f(x, m[x]) <= z(x, m[x]) by { l_sums_pos(m, a.ticks, a.pools, x); } l_rsum_le(m, m, f, z); l_rsum_zero(m, z);
}
pub proof fn l_rsum_zero<K, V>(m: Map<K, V>, f: spec_fn(K, V) -> real) requires forall|x: K, v: V| #[trigger] f(x, v) == 0real ensures rsum(m, f) == 0real decreases m.dom().len() {
    if m.dom().len() > 0 { let c = m.dom().choose(); if m.dom().contains(c) { assert(m.remove(c).dom() =~= m.dom().remove(c)); l_rsum_zero(m.remove(c), f); assert(f(c, m[c]) == 0real); } }
}
/// a swap: what is paid in covers what the pool owes more, what is paid out is owed no longer
pub proof fn l_owes_swapped(a: Invariant, b: Invariant, u: ActorId, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, c: CalculateSwapResult)
    requires a.wf(), swapped(a, b, u, k, xy, amt, by_in, lim, c) ensures no_more(a, b)
{
    l_pwf(a.pools, a.pool_keys, k); let (vi, vo) = (-c.amount_in.d(), c.amount_out.d()); let (vx, vy) = if xy { (vi, vo) } else { (vo, vi) }; let (m, t, t2) = (a.positions.pm(), a.ticks.ticks.m(), b.ticks.ticks.m());
    assert(b.pool(k) == c.pool);
    assert forall|j: PoolKey, isx: bool| j != k implies #[trigger] claims(isx, j, m, a.pool(j), t2) <= claims(isx, j, m, a.pool(j), t) by {
        assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) && m[x].pool_key == j implies same_end(isx, t[(j, m[x].lower_tick_index)], t2[(j, m[x].lower_tick_index)]) && same_end(isx, t[(j, m[x].upper_tick_index)], t2[(j, m[x].upper_tick_index)]) by { l_put_else(t, k, c.ticks@, j, m[x].lower_tick_index); l_put_else(t, k, c.ticks@, j, m[x].upper_tick_index); }
        l_claims_eq(isx, j, m, a.pool(j), a.pool(j), t, t2); }
    assert(kept(a, k, xy, c.pool, c.ticks@, c.amount_in.d(), c.amount_out.d()));
    l_settle(a, b, u, k, vx, vy);
}
pub proof fn l_put_else(m: TM, k: PoolKey, ts: Seq<Tick>, j: PoolKey, i: i32) requires j != k ensures put(m, k, ts)[(j, i)] == m[(j, i)] decreases ts.len() { if ts.len() > 0 { l_put_else(m, k, ts.drop_last(), j, i); } }
