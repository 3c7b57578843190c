// ---- the ticks a price passes, and what that does to the active liquidity
pub open spec fn clear(t: Ticks, k: PoolKey, lo: int, hi: int) -> bool { forall|i: i32| #[trigger] thas(t, k, i) ==> !(lo < i <= hi) }
pub proof fn l_msum_add(m: PM, f: spec_fn(Position) -> int, g: spec_fn(Position) -> int, h: spec_fn(Position) -> int, v: int)
    requires forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) ==> f(m[x]) == g(m[x]) + v * h(m[x]) ensures msum(m, f) == msum(m, g) + v * msum(m, h) decreases m.dom().len()
{
    if m.dom().len() > 0 { let c = m.dom().choose(); if m.dom().contains(c) { let n = m.remove(c); assert(n.dom() =~= m.dom().remove(c)); assert forall|x: (ActorId, u32)| #[trigger] n.dom().contains(x) implies f(n[x]) == g(n[x]) + v * h(n[x]) by { assert(m.dom().contains(x)); } l_msum_add(n, f, g, h, v);
        let (a, b) = (h(m[c]), msum(n, h)); assert(v * (a + b) == v * a + v * b) by (nonlinear_arith); } }
    else { assert(v * 0 == 0) by (nonlinear_arith); }
}
/// no stored tick between: the same positions are active
pub proof fn l_af_same(a: Invariant, k: PoolKey, c: int, d: int) requires a.positions_wf(), c <= d, clear(a.ticks, k, c, d) ensures msum(a.positions.pm(), af(k, c)) == msum(a.positions.pm(), af(k, d)) {
    reveal(sums); let m = a.positions.pm(); let (f, g) = (af(k, d), af(k, c));
    assert forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) implies f(m[x]) == g(m[x]) + 0 * g(m[x]) by { assert(pos_ok(a.ticks, a.pools, m[x])); let z = m[x]; assert(0 * g(z) == 0); if z.pool_key == k { assert(thas(a.ticks, k, z.lower_tick_index) && thas(a.ticks, k, z.upper_tick_index)); } }
    l_msum_add(m, f, g, g, 0); assert(0 * msum(m, g) == 0);
}
/// one stored tick between: its net liquidity comes in, or leaves on the way down
pub proof fn l_af_step(a: Invariant, k: PoolKey, c: int, d: int, x: i32) requires a.positions_wf(), c < x <= d, clear(a.ticks, k, c, x - 1), clear(a.ticks, k, x as int, d), thas(a.ticks, k, x)
    ensures msum(a.positions.pm(), af(k, d)) == msum(a.positions.pm(), af(k, c)) + net(a.tick(k, x))
{
    reveal(sums); let m = a.positions.pm(); let (f, g, h) = (af(k, d), af(k, c), nf(k, x));
    assert forall|e: (ActorId, u32)| #[trigger] m.dom().contains(e) implies f(m[e]) == g(m[e]) + 1 * h(m[e]) by { assert(pos_ok(a.ticks, a.pools, m[e])); let z = m[e]; assert(1 * h(z) == h(z)); if z.pool_key == k { assert(thas(a.ticks, k, z.lower_tick_index) && thas(a.ticks, k, z.upper_tick_index)); } }
    l_msum_add(m, f, g, h, 1); assert(1 * msum(m, h) == msum(m, h)); assert(a.tick(k, x).index == x || true);
}
pub proof fn l_cleared(a: Invariant, k: PoolKey, c: int, up: bool, x: int)
    requires a.ticks_wf(), key_ok(k), tick_ok(c), c % (k.fee_tier.tick_spacing as int) == 0, tnear(a.tickmap.bitmap.m(), k, c, k.fee_tier.tick_spacing as int, !up, x)
    ensures tick_ok(x), x % (k.fee_tier.tick_spacing as int) == 0, thas(a.ticks, k, x as i32), a.tick(k, x as i32).index == x, if up { c < x && clear(a.ticks, k, c, x - 1) } else { x <= c && clear(a.ticks, k, x, c) }
{
    let s = k.fee_tier.tick_spacing as int; let m = a.tickmap.bitmap.m(); l_limits(c, s); assert(nearest(m, k, c, s, up, x)); let i = x as i32; l_twf(a.ticks, a.tickmap, a.pools, k, i); assert(tmark(a.tickmap, k, i));
    assert forall|j: i32| #[trigger] thas(a.ticks, k, j) implies (if up { !(c < j <= x - 1) } else { !(x < j <= c) }) by { l_twf(a.ticks, a.tickmap, a.pools, k, j); if if up { c < j <= x - 1 } else { x < j <= c } { assert(tmark(a.tickmap, k, j)); l_nearest(m, k, c, s, up, x, j as int); } }
}
pub proof fn l_cleared_all(a: Invariant, k: PoolKey, c: int, up: bool)
    requires a.ticks_wf(), key_ok(k), tick_ok(c), c % (k.fee_tier.tick_spacing as int) == 0, none_near(a.tickmap.bitmap.m(), k, c, k.fee_tier.tick_spacing as int, up)
    ensures ({ let s = k.fee_tier.tick_spacing as int; if up { c <= limit_up(c, s) && clear(a.ticks, k, c, limit_up(c, s)) && tick_ok(limit_up(c, s)) && limit_up(c, s) % s == 0 } else { limit_down(c, s) <= c && clear(a.ticks, k, limit_down(c, s) - 1, c) && tick_ok(limit_down(c, s)) && limit_down(c, s) % s == 0 } })
{
    let s = k.fee_tier.tick_spacing as int; let m = a.tickmap.bitmap.m(); l_limits(c, s);
    assert forall|j: i32| #[trigger] thas(a.ticks, k, j) implies (if up { !(c < j <= limit_up(c, s)) } else { !(limit_down(c, s) - 1 < j <= c) }) by { l_twf(a.ticks, a.tickmap, a.pools, k, j); if if up { c < j <= limit_up(c, s) } else { limit_down(c, s) - 1 < j <= c } { assert(tmark(a.tickmap, k, j)); l_nearest(m, k, c, s, up, 0, j as int); } }
}
//@include boundary.inc
/// the crossed ticks, stored
pub open spec fn put(m: Map<(PoolKey, i32), Tick>, k: PoolKey, ts: Seq<Tick>) -> Map<(PoolKey, i32), Tick> decreases ts.len() { if ts.len() == 0 { m } else { put(m, k, ts.drop_last()).insert((k, ts.last().index), ts.last()) } }
