// ---- a whole swap
pub proof fn l_put_at(a: Invariant, k: PoolKey, ts: Seq<Tick>, x: i32) requires !idx_in(ts, x) ensures put(a.ticks.ticks.m(), k, ts)[(k, x)] == a.tick(k, x) decreases ts.len() {
    if ts.len() > 0 { let d = ts.drop_last(); assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).index != x by { assert(d[j] == ts[j]); } l_put_at(a, k, d, x); assert(ts[ts.len() - 1].index != x); }
}
pub proof fn l_put_index(a: Invariant, k: PoolKey, ts: Seq<Tick>) requires a.ticks_wf() ensures at_index(a, k, put(a.ticks.ticks.m(), k, ts)) decreases ts.len() {
    if ts.len() > 0 { l_put_index(a, k, ts.drop_last()); } else { assert forall|i: i32| #[trigger] thas(a.ticks, k, i) implies a.ticks.ticks.m()[(k, i)].index == i by { l_twf(a.ticks, a.tickmap, a.pools, k, i); } }
}
/// the pool after a swap owes no more of the token paid in than before plus what was paid, and of the other at least what was paid out less than before
pub open spec fn kept(a: Invariant, k: PoolKey, xy: bool, q: Pool, ts: Seq<Tick>, tin: int, tout: int) -> bool {
    &&& claims(xy, k, a.positions.pm(), q, put(a.ticks.ticks.m(), k, ts)) <= claims(xy, k, a.positions.pm(), a.pool(k), a.ticks.ticks.m()) + (tin as real)
    &&& claims(!xy, k, a.positions.pm(), q, put(a.ticks.ticks.m(), k, ts)) <= claims(!xy, k, a.positions.pm(), a.pool(k), a.ticks.ticks.m()) - (tout as real)
}
pub proof fn l_kept_start(a: Invariant, k: PoolKey, xy: bool, ts: Seq<Tick>) requires ts.len() == 0 ensures kept(a, k, xy, a.pool(k), ts, 0, 0) {}
pub proof fn l_round_kept(a: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, z: Run, sl: int, lt: Option<(i32, bool)>, n: int, ain: int, aout: int, fa: int, pf1: Pool, p1: Pool, rem1: int, t0: UpdatePoolTick, t1: UpdatePoolTick, p2: Pool, add: int, rem2: int, cr: bool, ts2: Seq<Tick>)
    requires a.wf(), run_ok(a, k, xy, amt, by_in, lim, z), kept(a, k, xy, z.pool, z.ts, z.tin, z.tout), z.rem > 0, found(a, k, z.pool.current_tick_index as int, xy, lim, sl, lt),
        step_ok(z.pool.sqrt_price.d(), sl, z.pool.liquidity.d(), z.rem, by_in, k.fee_tier.fee.d(), n, ain, aout, fa),
        rem1 == z.rem - (if by_in { ain + fa } else { aout }), rem1 >= 0, fee_booked(z.pool, pf1, fa, xy, a.config.protocol_fee.d()), a.config.protocol_fee.d() * fa <= fa * E12, p1 == (Pool { sqrt_price: p1.sqrt_price, ..pf1 }), p1.sqrt_price.d() == n,
        match lt { Some((i, true)) => t0 == UpdatePoolTick::TickInitialized(a.tick(k, i)), Some((i, false)) => t0 == UpdatePoolTick::TickUninitialized(i), None => t0 == UpdatePoolTick::NoTick },
        lt is None || sl != n ==> t1 == t0 && in_range(n) && p2.current_tick_index as int == stop_tick(p1.current_tick_index as int, falign(sel(n), k.fee_tier.tick_spacing as int), xy) && p2 == (Pool { current_tick_index: p2.current_tick_index, ..p1 }) && add == 0 && rem2 == rem1 && !cr,
        !(lt is None || sl != n) ==> tick_done(p1, p2, t0, t1, n, rem1, by_in, xy, now(), a.config.protocol_fee.d(), k.fee_tier, (add, rem2, cr)),
        ts2 == (if t1 is TickInitialized && cr { z.ts.push(t1->TickInitialized_0) } else { z.ts }),
        (if xy { p2.current_tick_index >= MIN_TICK } else { p2.current_tick_index <= MAX_TICK }), a.config.protocol_fee.d() >= 0,
    ensures kept(a, k, xy, p2, ts2, z.tin + ain + fa + add, z.tout + aout)
{ l_round_side(a, k, xy, amt, by_in, lim, z, sl, lt, n, ain, aout, fa, pf1, p1, rem1, t0, t1, p2, add, rem2, cr, ts2, xy); l_round_side(a, k, xy, amt, by_in, lim, z, sl, lt, n, ain, aout, fa, pf1, p1, rem1, t0, t1, p2, add, rem2, cr, ts2, !xy); }
/// one round, seen from one of the two tokens
pub proof fn l_round_side(a: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, z: Run, sl: int, lt: Option<(i32, bool)>, n: int, ain: int, aout: int, fa: int, pf1: Pool, p1: Pool, rem1: int, t0: UpdatePoolTick, t1: UpdatePoolTick, p2: Pool, add: int, rem2: int, cr: bool, ts2: Seq<Tick>, isx: bool)
    requires a.wf(), run_ok(a, k, xy, amt, by_in, lim, z), z.rem > 0, found(a, k, z.pool.current_tick_index as int, xy, lim, sl, lt),
        step_ok(z.pool.sqrt_price.d(), sl, z.pool.liquidity.d(), z.rem, by_in, k.fee_tier.fee.d(), n, ain, aout, fa),
        rem1 == z.rem - (if by_in { ain + fa } else { aout }), rem1 >= 0, fee_booked(z.pool, pf1, fa, xy, a.config.protocol_fee.d()), a.config.protocol_fee.d() * fa <= fa * E12, p1 == (Pool { sqrt_price: p1.sqrt_price, ..pf1 }), p1.sqrt_price.d() == n,
        match lt { Some((i, true)) => t0 == UpdatePoolTick::TickInitialized(a.tick(k, i)), Some((i, false)) => t0 == UpdatePoolTick::TickUninitialized(i), None => t0 == UpdatePoolTick::NoTick },
        lt is None || sl != n ==> t1 == t0 && in_range(n) && p2.current_tick_index as int == stop_tick(p1.current_tick_index as int, falign(sel(n), k.fee_tier.tick_spacing as int), xy) && p2 == (Pool { current_tick_index: p2.current_tick_index, ..p1 }) && add == 0 && rem2 == rem1 && !cr,
        !(lt is None || sl != n) ==> tick_done(p1, p2, t0, t1, n, rem1, by_in, xy, now(), a.config.protocol_fee.d(), k.fee_tier, (add, rem2, cr)),
        ts2 == (if t1 is TickInitialized && cr { z.ts.push(t1->TickInitialized_0) } else { z.ts }),
        (if xy { p2.current_tick_index >= MIN_TICK } else { p2.current_tick_index <= MAX_TICK }), a.config.protocol_fee.d() >= 0,
    ensures claims(isx, k, a.positions.pm(), p2, put(a.ticks.ticks.m(), k, ts2)) <= claims(isx, k, a.positions.pm(), z.pool, put(a.ticks.ticks.m(), k, z.ts)) + (if isx == xy { (ain + fa + add) as real } else { -(aout as real) })
{
    let s = k.fee_tier.tick_spacing as int; let p0 = z.pool; let (c0, c, d) = (a.pool(k).current_tick_index as int, p0.current_tick_index as int, p2.current_tick_index as int); let pr = p0.sqrt_price.d(); let pf = a.config.protocol_fee.d(); let l = p0.liquidity.d(); let m = a.positions.pm();
    let t = put(a.ticks.ticks.m(), k, z.ts);
    l_pwf(a.pools, a.pool_keys, k); l_put_index(a, k, z.ts);
    let b = l_found_ticks(a, k, c, xy, lim, sl, lt, pr);
    l_step_use(pr, sl, l, z.rem, by_in, k.fee_tier.fee.d(), n, ain, aout, fa);
    assert(if xy { sl <= n <= pr } else { pr <= n <= sl });
    assert(p1.liquidity == p0.liquidity && pf1.liquidity == p0.liquidity && pf1.current_tick_index == p0.current_tick_index && p1.current_tick_index == p0.current_tick_index && pf1.sqrt_price == p0.sqrt_price && p1.start_timestamp == p0.start_timestamp) by { reveal(fee_booked); }
    // the fee
    l_claims_fee(a, k, xy, fa, pf, p0, pf1, t, isx);
    // the price
    assert(reach2(a, k, c, xy, b, n)) by { if n != sl || lt is None { assert(reach(a, k, c, xy, b, n)); } }
    l_claims_price(a, k, xy, b, pf1, p1, t, isx);
    let g = worth(isx, n) - worth(isx, pr); let lr = l as real;
    assert(g * lr == lr * g) by (nonlinear_arith);
    assert(g * lr <= (if isx == xy { ain as real } else { -(aout as real) })) by {
        reveal(step_ok);
        if l == 0 { assert(lr * g == 0real) by (nonlinear_arith) requires lr == 0real; }
        else if n == pr { assert(lr * g == 0real) by (nonlinear_arith) requires g == 0real; assert(adiff(n, pr) == 0 && adiff(pr, n) == 0); assert(0 * l == 0); assert(0 * l * E24 == 0);
            assert(aout <= 0) by { if pr >= sl { assert(aout * E24 * E5 <= 0); } else { assert(aout * (pr * n) * E5 <= 0); assert(aout * (pr * n) <= 0); assert(aout <= 0) by (nonlinear_arith) requires aout * (pr * n) <= 0, pr > 0, n > 0; } } }
        else { assert(xy == (pr >= sl)); l_pay(xy, pr, n, l, ain, aout); } }
    assert(claims(isx, k, m, p1, t) <= claims(isx, k, m, p0, t) + (if isx == xy { (ain + fa) as real } else { -(aout as real) }));
    // the tick
    if lt is None || sl != n {
        assert(reach(a, k, c, xy, b, n)); l_rest(a, k, c, xy, b, n, pr); assert(ts2 == z.ts);
        l_claims_tick(a, k, p1, p2, t, isx);
    } else {
        let x = b as i32; let e = enough(p1, n, rem1, k.fee_tier.fee.d(), by_in, xy); l_grid_gap(a, k, x); assert((b - s) % s == 0) by { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(b, s); }
        match t0 {
            UpdatePoolTick::TickInitialized(ti) => {
                assert(ti == a.tick(k, x)); let u = t1->TickInitialized_0; let q0 = Pool { current_tick_index: p1.current_tick_index, ..p2 };
                if !xy || e {
                    assert(!idx_in(z.ts, x)) by { assert forall|j: int| 0 <= j < z.ts.len() implies (#[trigger] z.ts[j]).index != x by { assert(swept(xy, c0, c, z.ts[j].index as int)); } } l_put_at(a, k, z.ts, x);
                    assert(ts2.drop_last() =~= z.ts && ts2.last() == u); assert(u.index == x);
                    l_claims_cross(a, k, x, u, p1, p2, t, isx);
                } else {
                    if rem1 > 0 && by_in { l_claims_fee(a, k, xy, rem1, pf, p1, q0, t, isx); } assert(q0.current_tick_index == c);
                    l_claims_tick(a, k, q0, p2, t, isx);
                }
            },
            UpdatePoolTick::TickUninitialized(i) => {
                if xy { if e { l_join(a.ticks, k, d, x - 1, c); } }
                l_claims_tick(a, k, p1, p2, t, isx);
            },
            _ => {}
        }
    }
}
