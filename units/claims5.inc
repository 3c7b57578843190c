// ---- what each operation does to the debts
/// balances of one account in a pool's two tokens change by vx and vy, the pool's claims by at most the opposite: no more is owed of any token
pub proof fn l_settle(a: Invariant, b: Invariant, u: ActorId, k: PoolKey, vx: int, vy: int)
    requires phas(a.pools, k), k.token_x != k.token_y, b.pools.pools.m() == a.pools.pools.m().insert(k, b.pool(k)), b.awaiting_transfers == a.awaiting_transfers,
        forall|j: PoolKey, isx: bool| j != k ==> #[trigger] claims(isx, j, b.positions.pm(), a.pool(j), b.ticks.ticks.m()) <= claims(isx, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m()),
        claims(true, k, b.positions.pm(), b.pool(k), b.ticks.ticks.m()) <= claims(true, k, a.positions.pm(), a.pool(k), a.ticks.ticks.m()) - (vx as real), claims(false, k, b.positions.pm(), b.pool(k), b.ticks.ticks.m()) <= claims(false, k, a.positions.pm(), a.pool(k), a.ticks.ticks.m()) - (vy as real),
        forall|w: ActorId, t: ActorId| #[trigger] lbal(b.balances, w, t) == lbal(a.balances, w, t) + (if w == u && t == k.token_x { vx } else if w == u && t == k.token_y { vy } else { 0 })
    ensures no_more(a, b)
{
    assert forall|t: ActorId| #[trigger] debts(b, t) <= debts(a, t) by { let v = if t == k.token_x { vx } else if t == k.token_y { vy } else { 0 };
        assert forall|w: ActorId| #[trigger] lbal(b.balances, w, t) == lbal(a.balances, w, t) + (if w == u { v } else { 0 }) by {} l_lsum(a.balances, b.balances, t, u, v); l_pools_owe(a, b, k, t); }
}
/// the positions of a pool claim the same where its price, tick and counters and the ends of its positions stay
pub proof fn l_claims_eq(isx: bool, k: PoolKey, m: PM, p: Pool, q: Pool, t: TM, t2: TM)
    requires q.current_tick_index == p.current_tick_index, q.sqrt_price == p.sqrt_price, glob_of(isx, q) == glob_of(isx, p), forall|x: (ActorId, u32)| #[trigger] inr(m, x) && m[x].pool_key == k ==> same_end(isx, t[(k, m[x].lower_tick_index)], t2[(k, m[x].lower_tick_index)]) && same_end(isx, t[(k, m[x].upper_tick_index)], t2[(k, m[x].upper_tick_index)])
    ensures claims(isx, k, m, q, t2) - (fp_of(isx, q) as real) <= claims(isx, k, m, p, t) - (fp_of(isx, p) as real)
{
    let (f, g) = (cf(isx, k, q, t2), cf(isx, k, p, t));
    assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) implies f(x, m[x]) <= g(x, m[x]) by { let z = m[x]; if z.pool_key == k { l_claim_same(isx, p, q, t[(k, z.lower_tick_index)], t2[(k, z.lower_tick_index)], t[(k, z.upper_tick_index)], t2[(k, z.upper_tick_index)], z); } }
    l_rsum_le(m, m, f, g);
}
/// a position just updated claims the worth of its liquidity
pub proof fn l_claim_new(isx: bool, q: Pool, lo: Tick, up: Tick, z: Position) requires owed_of(isx, z) == 0, last_of(isx, z) == in_of(isx, lo, up, q)
    ensures claim(isx, q, lo, up, z) == val(isx, z.liquidity.d(), q.sqrt_price.d(), tick_price(z.lower_tick_index as int), tick_price(z.upper_tick_index as int)) { l_wsub_self(last_of(isx, z)); l_gain_none(z.liquidity.d()); }
pub proof fn l_keeps_ends(isx: bool, a: Invariant, k: PoolKey, i: i32, t: Tick, l: int, upper: bool, deposit: bool) requires a.has_tick(k, i), tick_step(a, k, i, t, l, upper, deposit) ensures same_end(isx, a.tick(k, i), t) {}
pub open spec fn pos_xy(isx: bool, c: int, p: int, l: int, up_: bool, up: int, lo: int) -> int { if isx { pos_x(c, p, l, up_, up, lo) } else { pos_y(c, p, l, up_, up, lo) } }
/// opening a position: the pool owes at most what was paid in more, and other pools nothing more
pub proof fn l_created_claims(a: Invariant, b: Invariant, u: ActorId, k: PoolKey, lo: i32, up: i32, l: int, pos: Position, isx: bool, j: PoolKey)
    requires a.wf(), b.wf(), a.positions.len(u) < u32::MAX, created(a, b, u, k, lo, up, l, pos)
    ensures claims(isx, j, b.positions.pm(), if j == k { b.pool(k) } else { a.pool(j) }, b.ticks.ticks.m()) <= claims(isx, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m()) + (if j == k { pos_xy(isx, a.pool(k).current_tick_index as int, a.pool(k).sqrt_price.d(), l, true, up as int, lo as int) as real } else { 0real })
{
    let (m, t, t2) = (a.positions.pm(), a.ticks.ticks.m(), b.ticks.ticks.m()); let q = if j == k { b.pool(k) } else { a.pool(j) }; let p = a.pool(j); l_pm_push(a.positions, b.positions, u, pos); let e = (u, a.positions.len(u) as u32);
    l_pwf(a.pools, a.pool_keys, k);
    assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) && m[x].pool_key == j implies same_end(isx, t[(j, m[x].lower_tick_index)], t2[(j, m[x].lower_tick_index)]) && same_end(isx, t[(j, m[x].upper_tick_index)], t2[(j, m[x].upper_tick_index)]) by {
        let z = m[x]; l_sums_pos(m, a.ticks, a.pools, x); assert(thas(a.ticks, j, z.lower_tick_index) && thas(a.ticks, j, z.upper_tick_index));
        l_step_end(isx, a, b, k, lo, up, l, j, z.lower_tick_index); l_step_end(isx, a, b, k, lo, up, l, j, z.upper_tick_index); }
    l_claims_eq(isx, j, m, p, q, t, t2); l_rsum_new(m, cf(isx, j, q, t2), e, pos);
    if j == k { let (u0, u1) = (b.tick(k, lo), b.tick(k, up)); assert(in_x(u0, u1, q) == in_x(u0, u1, p)); assert(in_y(u0, u1, q) == in_y(u0, u1, p)); l_claim_new(isx, q, u0, u1, pos); l_worth_pos(k, p.sqrt_price.d(), p.current_tick_index as int, lo as int, up as int, l); assert(u0 == t2[(k, lo)] && u1 == t2[(k, up)]); }
}
pub proof fn l_step_end(isx: bool, a: Invariant, b: Invariant, k: PoolKey, lo: i32, up: i32, l: int, j: PoolKey, i: i32)
    requires a.has_tick(j, i), lo < up, b.ticks.ticks.m() =~= a.ticks.ticks.m().insert((k, lo), b.tick(k, lo)).insert((k, up), b.tick(k, up)), tick_step(a, k, lo, b.tick(k, lo), l, false, true), tick_step(a, k, up, b.tick(k, up), l, true, true) ensures same_end(isx, a.tick(j, i), b.tick(j, i)) {
    if j == k && i == lo { l_keeps_ends(isx, a, k, lo, b.tick(k, lo), l, false, true); } else if j == k && i == up { l_keeps_ends(isx, a, k, up, b.tick(k, up), l, true, true); } else { assert(b.tick(j, i) == a.tick(j, i)); }
}
pub proof fn l_owes_created(a: Invariant, b: Invariant, u: ActorId, k: PoolKey, lo: i32, up: i32, l: int, pos: Position)
    requires a.wf(), b.wf(), a.positions.len(u) < u32::MAX, created(a, b, u, k, lo, up, l, pos) ensures no_more(a, b)
{
    l_pwf(a.pools, a.pool_keys, k); let (c, pr) = (a.pool(k).current_tick_index as int, a.pool(k).sqrt_price.d()); let (vx, vy) = (-pos_x(c, pr, l, true, up as int, lo as int), -pos_y(c, pr, l, true, up as int, lo as int));
    l_created_claims(a, b, u, k, lo, up, l, pos, true, k); l_created_claims(a, b, u, k, lo, up, l, pos, false, k);
    assert forall|j: PoolKey, isx: bool| j != k implies #[trigger] claims(isx, j, b.positions.pm(), a.pool(j), b.ticks.ticks.m()) <= claims(isx, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m()) by { l_created_claims(a, b, u, k, lo, up, l, pos, isx, j); }
    l_settle(a, b, u, k, vx, vy);
}
pub open spec fn due(isx: bool, a: Invariant, z: Position) -> int { if isx { due_x(a, z) } else { due_y(a, z) } }
/// the fees due to a position are no more than it claims beyond the worth of its liquidity
pub proof fn l_due(isx: bool, a: Invariant, z: Position) requires z.liquidity.d() >= 0
    ensures (due(isx, a, z) as real) + val(isx, z.liquidity.d(), a.pool(z.pool_key).sqrt_price.d(), tick_price(z.lower_tick_index as int), tick_price(z.upper_tick_index as int)) <= claim(isx, a.pool(z.pool_key), a.tick(z.pool_key, z.lower_tick_index), a.tick(z.pool_key, z.upper_tick_index), z)
{
    let k = z.pool_key; let g = wsub(in_of(isx, a.tick(k, z.lower_tick_index), a.tick(k, z.upper_tick_index), a.pool(k)), last_of(isx, z));
    assert(g >= 0) by { reveal(wsub); let d = in_of(isx, a.tick(k, z.lower_tick_index), a.tick(k, z.upper_tick_index), a.pool(k)) - last_of(isx, z); vstd::arithmetic::div_mod::lemma_mod_bound(d, W128); } l_owed(g, z.liquidity.d());
}
pub proof fn l_claimed_claims(a: Invariant, b: Invariant, u: ActorId, n: int, x: int, y: int, isx: bool, j: PoolKey)
    requires a.wf(), b.wf(), claimed(a, b, u, n, x, y), n >= 0
    ensures ({ let k = a.positions.list(u)[n].pool_key; claims(isx, j, b.positions.pm(), if j == k { b.pool(k) } else { a.pool(j) }, b.ticks.ticks.m()) <= claims(isx, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m()) - (if j == k { (if isx { x } else { y }) as real } else { 0real }) })
{
    let z = a.positions.list(u)[n]; let w = b.positions.list(u)[n]; let k = z.pool_key; let (lo, up) = (z.lower_tick_index, z.upper_tick_index); let i = n as u32;
    let (m, t, t2) = (a.positions.pm(), a.ticks.ticks.m(), b.ticks.ticks.m()); let q = if j == k { b.pool(k) } else { a.pool(j) }; let p = a.pool(j); l_pm_set(a.positions, b.positions, u, i, w); let e = (u, i); a.positions.l_at(u, i); assert(m[e] == z);
    l_pwf(a.pools, a.pool_keys, k); l_sums_pos(m, a.ticks, a.pools, e);
    assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) && m[x].pool_key == j implies same_end(isx, t[(j, m[x].lower_tick_index)], t2[(j, m[x].lower_tick_index)]) && same_end(isx, t[(j, m[x].upper_tick_index)], t2[(j, m[x].upper_tick_index)]) by {
        let z = m[x]; l_sums_pos(m, a.ticks, a.pools, x); assert(thas(a.ticks, j, z.lower_tick_index) && thas(a.ticks, j, z.upper_tick_index));
        l_step_end(isx, a, b, k, lo, up, 0, j, z.lower_tick_index); l_step_end(isx, a, b, k, lo, up, 0, j, z.upper_tick_index); }
    l_claims_eq(isx, j, m, p, q, t, t2); l_rsum_set(m, cf(isx, j, q, t2), e, w);
    if j == k {
        let (u0, u1, v0, v1) = (a.tick(k, lo), a.tick(k, up), b.tick(k, lo), b.tick(k, up)); l_step_end(isx, a, b, k, lo, up, 0, k, lo); l_step_end(isx, a, b, k, lo, up, 0, k, up); assert(v0 == t2[(k, lo)] && v1 == t2[(k, up)]);
        l_in_ends(isx, u0, v0, u1, v1, p, q); l_claim_new(isx, q, v0, v1, w); l_due(isx, a, z); l_claim_same(isx, p, q, u0, v0, u1, v1, z); }
}
pub proof fn l_in_ends(isx: bool, lo: Tick, lo2: Tick, up: Tick, up2: Tick, p: Pool, q: Pool) requires same_end(isx, lo, lo2), same_end(isx, up, up2), q.current_tick_index == p.current_tick_index, glob_of(isx, q) == glob_of(isx, p) ensures in_of(isx, lo2, up2, q) == in_of(isx, lo, up, p) { reveal(growth_inside); }
pub proof fn l_owes_claimed(a: Invariant, b: Invariant, u: ActorId, n: int, x: int, y: int)
    requires a.wf(), b.wf(), claimed(a, b, u, n, x, y), n >= 0 ensures no_more(a, b)
{
    let k = a.positions.list(u)[n].pool_key; l_pwf(a.pools, a.pool_keys, k); l_claimed_claims(a, b, u, n, x, y, true, k); l_claimed_claims(a, b, u, n, x, y, false, k);
    assert forall|j: PoolKey, isx: bool| j != k implies #[trigger] claims(isx, j, b.positions.pm(), a.pool(j), b.ticks.ticks.m()) <= claims(isx, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m()) by { l_claimed_claims(a, b, u, n, x, y, isx, j); }
    l_settle(a, b, u, k, x, y);
}
