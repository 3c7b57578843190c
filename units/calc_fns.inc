//@struct io/src/lib.rs CalculateSwapResult
/// the result of the computation as a function of what it reads (safe Rust without hidden state: assumed of calculate_swap where it is called)
pub uninterp spec fn calc_of(a: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int) -> Option<CalculateSwapResult>;
pub open spec fn swept(xy: bool, c0: int, c1: int, i: int) -> bool { if xy { c1 < i <= c0 } else { c0 < i <= c1 } }
pub open spec fn idx_in(ts: Seq<Tick>, i: i32) -> bool { exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).index == i }
/// a crossed tick: only what it keeps about the other side has changed
pub open spec fn crossed_tick(a: Tick, b: Tick) -> bool { b.index == a.index && b.sign == a.sign && b.liquidity_change == a.liquidity_change && b.liquidity_gross == a.liquidity_gross && b.sqrt_price == a.sqrt_price }
/// the crossed ticks are exactly the stored ones between the old and the new tick, each once, in the order of the move
pub open spec fn crossed(a: Invariant, k: PoolKey, xy: bool, c0: int, c1: int, ts: Seq<Tick>) -> bool {
    &&& forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() ==> thas(a.ticks, k, ts[j].index) && swept(xy, c0, c1, ts[j].index as int) && crossed_tick(a.tick(k, ts[j].index), ts[j])
    &&& forall|i: int, j: int| #![trigger ts[i], ts[j]] 0 <= i < j < ts.len() ==> if xy { ts[j].index < ts[i].index } else { ts[i].index < ts[j].index }
    &&& forall|i: i32| #[trigger] thas(a.ticks, k, i) && swept(xy, c0, c1, i as int) ==> idx_in(ts, i)
}
/// the token a crossing does not touch: its counter is mirrored against a growth that did not move during the swap
pub open spec fn mirrored(a: Invariant, k: PoolKey, xy: bool, ts: Seq<Tick>) -> bool { forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() ==> (ts[j].seconds_outside as int == (now() - a.pool(k).start_timestamp - a.tick(k, ts[j].index).seconds_outside) % 18446744073709551616int) && (if xy { ts[j].fee_growth_outside_y.d() == wsub(a.pool(k).fee_growth_global_y.d(), a.tick(k, ts[j].index).fee_growth_outside_y.d()) }
    else { ts[j].fee_growth_outside_x.d() == wsub(a.pool(k).fee_growth_global_x.d(), a.tick(k, ts[j].index).fee_growth_outside_x.d()) }) }
pub open spec fn paid_fp(q: Pool, xy: bool) -> int { if xy { q.fee_protocol_token_x.d() } else { q.fee_protocol_token_y.d() } }
/// what a swap may change in its pool
pub open spec fn pool_moved(p: Pool, q: Pool, xy: bool) -> bool {
    if xy { q == (Pool { liquidity: q.liquidity, sqrt_price: q.sqrt_price, current_tick_index: q.current_tick_index, fee_growth_global_x: q.fee_growth_global_x, fee_protocol_token_x: q.fee_protocol_token_x, last_timestamp: q.last_timestamp, ..p }) }
    else { q == (Pool { liquidity: q.liquidity, sqrt_price: q.sqrt_price, current_tick_index: q.current_tick_index, fee_growth_global_y: q.fee_growth_global_y, fee_protocol_token_y: q.fee_protocol_token_y, last_timestamp: q.last_timestamp, ..p }) }
}
/// everything a computed swap promises
pub open spec fn calc_ok(a: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, c: CalculateSwapResult) -> bool {
    let (p, q) = (a.pool(k), c.pool); let (n, m) = (p.sqrt_price.d(), q.sqrt_price.d());
    &&& a.has_pool(k) && amt > 0 && c.amount_out.d() > 0 && c.amount_in.d() >= 0
    &&& (if by_in { c.amount_in.d() == amt } else { c.amount_out.d() == amt })
    &&& c.start_sqrt_price == p.sqrt_price && c.target_sqrt_price == q.sqrt_price
    &&& (if xy { lim < n && lim <= m <= n } else { lim > n && n <= m <= lim })
    &&& pool_moved(p, q, xy) && pool_ok(k, q)
    &&& (if xy { q.current_tick_index <= p.current_tick_index } else { q.current_tick_index >= p.current_tick_index })
    &&& q.liquidity.d() == msum(a.positions.pm(), af(k, q.current_tick_index as int))
    &&& crossed(a, k, xy, p.current_tick_index as int, q.current_tick_index as int, c.ticks@) && mirrored(a, k, xy, c.ticks@)
    &&& 0 <= c.fee.d() <= c.amount_in.d() && c.fee.d() * a.config.protocol_fee.d() <= (paid_fp(q, xy) - paid_fp(p, xy)) * E12 && 0 <= paid_fp(q, xy) - paid_fp(p, xy) <= c.amount_in.d()
//@if solv
    &&& kept(a, k, xy, q, c.ticks@, c.amount_in.d(), c.amount_out.d())
//@fi
}
// ---- one round of the loop
pub proof fn l_out_moves(p: int, l: int, a: int, xy: bool) requires p > 0, l > 0, a > 0, !xy ==> l * E19 - p * a > 0 ensures if xy { next_out(p, l, a, xy) < p } else { next_out(p, l, a, xy) > p } {
    reveal(next_out); reveal(next_x); reveal(next_y);
    if xy { l_cdiv((a * E24) * E24, l * E19); let q = cdiv((a * E24) * E24, l * E19); assert(q >= 1) by (nonlinear_arith) requires q * (l * E19) >= (a * E24) * E24, (a * E24) * E24 > 0, l * E19 > 0; }
    else {
        let pl = p * l; let nom = cdiv(pl, E5) * E24; let den = l * E19 - p * a; assert(pl > 0) by (nonlinear_arith) requires pl == p * l, p > 0, l > 0; l_cdiv(pl, E5); l_cdiv(nom, den); let n = cdiv(nom, den);
        assert(p * den < pl * E19) by (nonlinear_arith) requires den == l * E19 - p * a, pl == p * l, p > 0, a > 0;
        assert(nom >= pl * E19); assert(n > p) by (nonlinear_arith) requires n * den >= nom, nom > p * den, den > 0;
    }
}
/// what the step facts say, without the curve
pub open spec fn step_use(p: int, t: int, l: int, a: int, by_in: bool, n: int, ain: int, aout: int, fa: int) -> bool {
    &&& between(p, t, n) && ain >= 0 && aout >= 0 && fa >= 0 && (l == 0 ==> n == t && fa == 0)
    &&& (by_in ==> ain + fa <= a) && (by_in && n != t ==> ain + fa == a) && (!by_in ==> aout <= a) && (!by_in && n != t ==> n != p)
}
pub proof fn l_step_use(p: int, t: int, l: int, a: int, by_in: bool, f: int, n: int, ain: int, aout: int, fa: int)
    requires step_ok(p, t, l, a, by_in, f, n, ain, aout, fa), p > 0, l >= 0, a > 0 ensures step_use(p, t, l, a, by_in, n, ain, aout, fa)
{ reveal(step_ok); if l > 0 && !by_in && n != t { l_out_moves(p, l, a, p >= t); } }
/// how far the ticks are known
pub open spec fn reach(a: Invariant, k: PoolKey, c: int, xy: bool, b: int, n: int) -> bool {
    tick_ok(b) && b % (k.fee_tier.tick_spacing as int) == 0 && if xy { b <= c && clear(a.ticks, k, b, c) && tick_price(b) <= n } else { c < b && ((clear(a.ticks, k, c, b) && n <= tick_price(b)) || (clear(a.ticks, k, c, b - 1) && n < tick_price(b))) }
}
/// a price that stops short of the next tick
pub proof fn l_rest(a: Invariant, k: PoolKey, c: int, xy: bool, b: int, n: int, pr: int)
    requires reach(a, k, c, xy, b, n), key_ok(k), in_range(n), price_in(k, pr, c), on_grid(k, c as i32), tick_ok(c), if xy { n <= pr } else { pr <= n }
    ensures ({ let d = stop_tick(c, falign(sel(n), k.fee_tier.tick_spacing as int), xy); on_grid(k, d as i32) && tick_ok(d) && price_in(k, n, d) && if xy { b <= d <= c && clear(a.ticks, k, d, c) } else { c <= d && clear(a.ticks, k, c, d) } })
{
    let s = k.fee_tier.tick_spacing as int; l_tick_at_price(n, s); let t = falign(sel(n), s); let d = stop_tick(c, t, xy);
    if xy { assert(tick_price(b) <= n); assert(b <= t); } else { assert(tick_price(c) <= n); assert(c <= t);
        if n < tick_price(b) { assert(t < b); } else { if t > b { assert(tick_ok(t)) by { l_sel_bound(n, s); } l_price_mono(b, t); } } }
    assert(tick_ok(d)) by { if !xy { l_sel_bound(n, s); } }
    if xy && c < t { assert(d == c); }
}
pub proof fn l_sel_bound(n: int, s: int) requires in_range(n), 1 <= s <= 100 ensures falign(sel(n), s) <= MAX_TICK { reveal(falign); ax_boundary(); l_price_ends(); let r = l_has_tick(n, MIN_TICK as int); l_tick_of_price(n, r); vstd::arithmetic::div_mod::lemma_mod_bound(r, s); }
/// what the limit search found, in terms of the stored ticks
pub open spec fn found(a: Invariant, k: PoolKey, c: int, xy: bool, lim: int, sl: int, lt: Option<(i32, bool)>) -> bool {
    let (m, s) = (a.tickmap.bitmap.m(), k.fee_tier.tick_spacing as int); let end = if xy { limit_down(c, s) } else { limit_up(c, s) };
    match lt {
        Some((x, true)) => nearest(m, k, c, s, !xy, x as int) && sl == tick_price(x as int) && closer(xy, lim, x as int, true),
        Some((x, false)) => none_near(m, k, c, s, !xy) && x as int == end && x != c && sl == tick_price(x as int) && closer(xy, lim, x as int, false),
        None => sl == lim && ((exists|x: int| #[trigger] tnear(m, k, c, s, xy, x) && !closer(xy, lim, x, true)) || (none_near(m, k, c, s, !xy) && end != c && !closer(xy, lim, end, false))),
    }
}
pub proof fn l_found_ticks(a: Invariant, k: PoolKey, c: int, xy: bool, lim: int, sl: int, lt: Option<(i32, bool)>, pr: int) -> (b: int)
    requires found(a, k, c, xy, lim, sl, lt), a.ticks_wf(), key_ok(k), tick_ok(c), c % (k.fee_tier.tick_spacing as int) == 0, price_in(k, pr, c), if xy { lim < pr } else { pr < lim }
    ensures sl >= E12, in_range(sl), pr >= E12, if xy { lim <= sl <= pr } else { pr <= sl <= lim },
        forall|n: int| (if xy { sl <= n <= pr } else { pr <= n <= sl }) && (n != sl || lt is None) ==> #[trigger] reach(a, k, c, xy, b, n),
        match lt { Some((x, i)) => on_grid(k, x) && b == x && (i ==> thas(a.ticks, k, x) && a.tick(k, x).index == x) && if xy { x <= c && clear(a.ticks, k, (if i { x as int } else { x - 1 }), c) } else { c < x && clear(a.ticks, k, c, (if i { x - 1 } else { x as int })) }, None => true }
{
    let (m, s) = (a.tickmap.bitmap.m(), k.fee_tier.tick_spacing as int); let end = if xy { limit_down(c, s) } else { limit_up(c, s) }; l_limits(c, s); l_price_range(c);
    let near_b = match lt { Some((x, true)) => true, Some((x, false)) => false, None => exists|x: int| #[trigger] tnear(m, k, c, s, xy, x) && !closer(xy, lim, x, true) };
    let b = match lt { Some((x, _)) => x as int, None => if near_b { choose|x: int| #[trigger] tnear(m, k, c, s, xy, x) && !closer(xy, lim, x, true) } else { end } };
    if near_b { assert(tnear(m, k, c, s, xy, b)); l_cleared(a, k, c, !xy, b); } else { l_cleared_all(a, k, c, !xy); }
    assert(tick_ok(b)); l_price_range(b); assert(b % s == 0);
    if xy { if b < c { l_price_mono(b, c); } assert(tick_price(b) <= pr); }
    else { assert(c < b); l_step_grid(c, b, s); if c + s < b { l_price_mono(c + s, b); } assert(pr <= tick_price(b)); }
    b
}
/// the next usable tick is a whole spacing away
pub proof fn l_step_grid(c: int, b: int, s: int) requires s > 0, c % s == 0, b % s == 0, c < b ensures c + s <= b { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, s); let (p, q) = (c / s, b / s);
    assert(p < q) by (nonlinear_arith) requires s * p < s * q, s > 0; assert(s * (p + 1) <= s * q) by (nonlinear_arith) requires p + 1 <= q, s > 0; assert(s * (p + 1) == s * p + s) by (nonlinear_arith); }
pub proof fn l_grid_gap(a: Invariant, k: PoolKey, x: i32) requires a.ticks_wf(), key_ok(k), on_grid(k, x) ensures clear(a.ticks, k, x - k.fee_tier.tick_spacing, x - 1) {
    assert forall|i: i32| #[trigger] thas(a.ticks, k, i) implies !(x - k.fee_tier.tick_spacing < i <= x - 1) by { l_twf(a.ticks, a.tickmap, a.pools, k, i); if i < x { l_step_grid(i as int, x as int, k.fee_tier.tick_spacing as int); } } }
pub proof fn l_join(t: Ticks, k: PoolKey, a: int, b: int, c: int) requires clear(t, k, a, b), clear(t, k, b, c), a <= b <= c ensures clear(t, k, a, c) {}
// ---- what holds before every round
pub struct Run { pub pool: Pool, pub rem: int, pub tin: int, pub tout: int, pub fee: int, pub ts: Seq<Tick> }
pub open spec fn run_ok(a: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, z: Run) -> bool {
    let (p, q) = (a.pool(k), z.pool); let (n, m) = (p.sqrt_price.d(), q.sqrt_price.d());
    &&& a.has_pool(k) && amt > 0 && z.rem >= 0 && z.tin >= 0 && z.tout >= 0 && (if by_in { z.tin + z.rem == amt } else { z.tout + z.rem == amt })
    &&& (if xy { lim < n && lim <= m <= n && (z.rem > 0 ==> lim < m) } else { lim > n && n <= m <= lim && (z.rem > 0 ==> m < lim) })
    &&& pool_moved(p, q, xy) && pool_ok(k, q) && q.liquidity.d() >= 0
    &&& (if xy { q.current_tick_index <= p.current_tick_index } else { q.current_tick_index >= p.current_tick_index })
    &&& q.liquidity.d() == msum(a.positions.pm(), af(k, q.current_tick_index as int))
    &&& crossed(a, k, xy, p.current_tick_index as int, q.current_tick_index as int, z.ts) && mirrored(a, k, xy, z.ts)
    &&& 0 <= z.fee <= z.tin && z.fee * a.config.protocol_fee.d() <= (paid_fp(q, xy) - paid_fp(p, xy)) * E12 && 0 <= paid_fp(q, xy) - paid_fp(p, xy) <= z.tin
}
pub proof fn l_run_start(a: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int)
    requires a.wf(), a.has_pool(k), amt > 0, if xy { lim < a.pool(k).sqrt_price.d() } else { lim > a.pool(k).sqrt_price.d() }
    ensures run_ok(a, k, xy, amt, by_in, lim, Run { pool: a.pool(k), rem: amt, tin: 0, tout: 0, fee: 0, ts: Seq::empty() })
{ l_pwf(a.pools, a.pool_keys, k); reveal(sums); assert(phas(a.pools, k)); let p = a.pool(k); broadcast use uint_ranges; reveal(u256_val); assert(p.liquidity.d() >= 0); assert(0 * a.config.protocol_fee.d() == 0); }
pub proof fn l_same_crossed(a: Invariant, k: PoolKey, xy: bool, c0: int, c: int, d: int, ts: Seq<Tick>)
    requires crossed(a, k, xy, c0, c, ts), if xy { d <= c && clear(a.ticks, k, d, c) } else { c <= d && clear(a.ticks, k, c, d) } ensures crossed(a, k, xy, c0, d, ts)
{ assert forall|i: i32| #[trigger] thas(a.ticks, k, i) && swept(xy, c0, d, i as int) implies idx_in(ts, i) by { assert(swept(xy, c0, c, i as int)); }
  assert forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() implies thas(a.ticks, k, ts[j].index) && swept(xy, c0, d, ts[j].index as int) && crossed_tick(a.tick(k, ts[j].index), ts[j]) by { assert(swept(xy, c0, c, ts[j].index as int)); } }
pub proof fn l_one_crossed(a: Invariant, k: PoolKey, xy: bool, c0: int, c: int, d: int, ts: Seq<Tick>, b: Tick, p: Pool)
    requires crossed(a, k, xy, c0, c, ts), mirrored(a, k, xy, ts), thas(a.ticks, k, b.index), tick_after_cross(a.tick(k, b.index), b, p, now() as int), pool_moved(a.pool(k), p, xy),
        if xy { d < b.index <= c <= c0 && clear(a.ticks, k, d, b.index - 1) && clear(a.ticks, k, b.index as int, c) } else { c0 <= c < b.index == d && clear(a.ticks, k, c, b.index - 1) }
    ensures crossed(a, k, xy, c0, d, ts.push(b)), mirrored(a, k, xy, ts.push(b))
{
    let t2 = ts.push(b); assert(t2[ts.len() as int] == b);
    assert forall|i: i32| #[trigger] thas(a.ticks, k, i) && swept(xy, c0, d, i as int) implies idx_in(t2, i) by { if i == b.index { assert(t2[ts.len() as int].index == i); } else { assert(swept(xy, c0, c, i as int)); assert(idx_in(ts, i)); let j = choose|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).index == i; assert(t2[j].index == i); } }
    assert forall|j: int| #![trigger t2[j]] 0 <= j < t2.len() implies thas(a.ticks, k, t2[j].index) && swept(xy, c0, d, t2[j].index as int) && crossed_tick(a.tick(k, t2[j].index), t2[j]) by { if j < ts.len() { assert(t2[j] == ts[j]); assert(swept(xy, c0, c, ts[j].index as int)); } }
    assert forall|i: int, j: int| #![trigger t2[i], t2[j]] 0 <= i < j < t2.len() implies if xy { t2[j].index < t2[i].index } else { t2[i].index < t2[j].index } by { assert(t2[i] == ts[i]); assert(swept(xy, c0, c, ts[i].index as int)); if j < ts.len() { assert(t2[j] == ts[j]); } }
    assert forall|j: int| #![trigger t2[j]] 0 <= j < t2.len() implies (t2[j].seconds_outside as int == (now() - a.pool(k).start_timestamp - a.tick(k, t2[j].index).seconds_outside) % 18446744073709551616int) && (if xy { t2[j].fee_growth_outside_y.d() == wsub(a.pool(k).fee_growth_global_y.d(), a.tick(k, t2[j].index).fee_growth_outside_y.d()) }
        else { t2[j].fee_growth_outside_x.d() == wsub(a.pool(k).fee_growth_global_x.d(), a.tick(k, t2[j].index).fee_growth_outside_x.d()) }) by { if j < ts.len() { assert(t2[j] == ts[j]); } }
}
/// a booked fee keeps the accounts of the run
pub proof fn l_run_fee(a: Invariant, xy: bool, p: Pool, q: Pool, f: int, z: int, t: int, x: int, counted: bool)
    requires fee_booked(p, q, f, xy, a.config.protocol_fee.d()), a.config.protocol_fee.d() * f <= f * E12, f >= 0, a.config.protocol_fee.d() >= 0, p.liquidity.d() == 0 ==> f == 0,
        z * a.config.protocol_fee.d() <= x * E12, 0 <= x <= t, x == 0 || true
    ensures ({ let dp = paid_fp(q, xy) - paid_fp(p, xy); 0 <= dp <= f && (z + (if counted { f } else { 0 })) * a.config.protocol_fee.d() <= (x + dp) * E12 })
{
    reveal(fee_booked); let pf = a.config.protocol_fee.d(); l_pshare(f, pf); let s = pshare(f, pf); assert((z + f) * pf == z * pf + f * pf) by (nonlinear_arith); assert(0 * pf == 0); assert((z + 0) * pf == z * pf); let dp = paid_fp(q, xy) - paid_fp(p, xy); assert(pf * f == f * pf) by (nonlinear_arith);
    if f == 0 { assert(dp == 0); assert(f * pf == 0); } else { assert(dp == s); }
    assert((x + dp) * E12 == x * E12 + dp * E12) by (nonlinear_arith);
}
/// one round keeps it all, and comes closer to the end
pub proof fn l_round(a: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, z: Run, sl: int, lt: Option<(i32, bool)>, n: int, ain: int, aout: int, fa: int, pf1: Pool, p1: Pool, rem1: int, t0: UpdatePoolTick, t1: UpdatePoolTick, p2: Pool, add: int, rem2: int, cr: bool, ts2: Seq<Tick>)
    requires a.wf(), run_ok(a, k, xy, amt, by_in, lim, z), z.rem > 0, found(a, k, z.pool.current_tick_index as int, xy, lim, sl, lt),
        step_ok(z.pool.sqrt_price.d(), sl, z.pool.liquidity.d(), z.rem, by_in, k.fee_tier.fee.d(), n, ain, aout, fa),
        rem1 == z.rem - (if by_in { ain + fa } else { aout }), rem1 >= 0, fee_booked(z.pool, pf1, fa, xy, a.config.protocol_fee.d()), a.config.protocol_fee.d() * fa <= fa * E12, p1 == (Pool { sqrt_price: p1.sqrt_price, ..pf1 }), p1.sqrt_price.d() == n,
        !(n == lim && rem1 != 0),
        match lt { Some((i, true)) => t0 == UpdatePoolTick::TickInitialized(a.tick(k, i)), Some((i, false)) => t0 == UpdatePoolTick::TickUninitialized(i), None => t0 == UpdatePoolTick::NoTick },
        lt is None || sl != n ==> t1 == t0 && in_range(n) && p2.current_tick_index as int == stop_tick(p1.current_tick_index as int, falign(sel(n), k.fee_tier.tick_spacing as int), xy) && p2 == (Pool { current_tick_index: p2.current_tick_index, ..p1 }) && add == 0 && rem2 == rem1 && !cr,
        !(lt is None || sl != n) ==> tick_done(p1, p2, t0, t1, n, rem1, by_in, xy, now(), a.config.protocol_fee.d(), k.fee_tier, (add, rem2, cr)),
        ts2 == (if t1 is TickInitialized && cr { z.ts.push(t1->TickInitialized_0) } else { z.ts }),
        (if xy { p2.current_tick_index >= MIN_TICK } else { p2.current_tick_index <= MAX_TICK }), p2.liquidity.d() >= 0, z.tin + ain + fa + add >= 0, a.config.protocol_fee.d() >= 0,
    ensures run_ok(a, k, xy, amt, by_in, lim, Run { pool: p2, rem: rem2, tin: z.tin + ain + fa + add, tout: z.tout + aout, fee: z.fee + fa, ts: ts2 }),
        rem2 > 0 ==> p2.sqrt_price.d() != z.pool.sqrt_price.d() || (if xy { p2.current_tick_index < z.pool.current_tick_index } else { p2.current_tick_index > z.pool.current_tick_index })
{
    let s = k.fee_tier.tick_spacing as int; let p0 = z.pool; let (c0, c, d) = (a.pool(k).current_tick_index as int, p0.current_tick_index as int, p2.current_tick_index as int); let pr = p0.sqrt_price.d(); let pf = a.config.protocol_fee.d(); let l = p0.liquidity.d();
    l_pwf(a.pools, a.pool_keys, k);
    let b = l_found_ticks(a, k, c, xy, lim, sl, lt, pr);
    l_step_use(pr, sl, l, z.rem, by_in, k.fee_tier.fee.d(), n, ain, aout, fa);
    assert(if xy { sl <= n <= pr } else { pr <= n <= sl });
    l_run_fee(a, xy, p0, pf1, fa, z.fee, z.tin, paid_fp(p0, xy) - paid_fp(a.pool(k), xy), true);
    reveal(fee_booked); assert(pool_moved(p0, p1, xy)); assert(pool_moved(a.pool(k), p1, xy)); assert(p1.liquidity == p0.liquidity && p1.current_tick_index == p0.current_tick_index && p1.start_timestamp == p0.start_timestamp);
    let z2 = Run { pool: p2, rem: rem2, tin: z.tin + ain + fa + add, tout: z.tout + aout, fee: z.fee + fa, ts: ts2 };
    if lt is None || sl != n {
        assert(reach(a, k, c, xy, b, n));
        l_rest(a, k, c, xy, b, n, pr);
        if xy { l_af_same(a, k, d, c); } else { l_af_same(a, k, c, d); }
        l_same_crossed(a, k, xy, c0, c, d, z.ts);
        assert(ts2 == z.ts);
    } else {
        let x = b as i32; let e = enough(p1, n, rem1, k.fee_tier.fee.d(), by_in, xy); l_price_range(b); l_grid_gap(a, k, x); assert((b - s) % s == 0) by { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(b, s); }
        assert(tick_ok(d)); assert(d % s == 0); if d < b { l_price_mono(d, b); } else if tick_ok(d + s) { l_price_mono(b, b + s); } assert(price_in(k, n, d));
        match t0 {
            UpdatePoolTick::TickInitialized(t) => {
                assert(t == a.tick(k, x)); let u = t1->TickInitialized_0; let q0 = Pool { current_tick_index: p1.current_tick_index, ..p2 };
                if !xy || e {
                    if xy { assert(clear(a.ticks, k, d, x - 1)); l_af_step(a, k, d, c, x); } else { l_af_step(a, k, c, d, x); }
                    l_one_crossed(a, k, xy, c0, c, d, z.ts, u, p1);
                } else {
                    l_af_same(a, k, d, c); l_same_crossed(a, k, xy, c0, c, d, z.ts);
                    if rem1 > 0 && by_in { l_run_fee(a, xy, p1, q0, rem1, z2.fee, z.tin + ain + fa, paid_fp(p1, xy) - paid_fp(a.pool(k), xy), false); }
                    if rem1 > 0 && !by_in { reveal(step_price); l_out_moves(n, p1.liquidity.d(), rem1, xy); }
                }
            },
            UpdatePoolTick::TickUninitialized(i) => {
                if xy { if e { l_join(a.ticks, k, d, x - 1, c); } l_af_same(a, k, d, c); } else { l_af_same(a, k, c, d); }
                l_same_crossed(a, k, xy, c0, c, d, z.ts);
            },
            _ => {}
        }
    }
}
//@if sim
// ---- the same rounds, as the chain the client library is held to
pub open spec fn env_at(a: Invariant, k: PoolKey, xy: bool, by: bool, lim: int) -> Env { Env { bits: bits_of(a.tickmap.bitmap.m(), k), nets: |i: int| net(a.tick(k, i as i32)), s: k.fee_tier.tick_spacing as int, f: k.fee_tier.fee.d(), xy, by, lim } }
pub open spec fn begin_at(p: Pool, amt: int) -> Q { Q { c: p.current_tick_index as int, p: p.sqrt_price.d(), l: p.liquidity.d(), rem: amt, tin: 0, tout: 0, fee: 0, ts: Seq::empty() } }
pub open spec fn tidx(ts: Seq<Tick>) -> Seq<int> { Seq::new(ts.len(), |j: int| ts[j].index as int) }
pub open spec fn run_q(z: Run) -> Q { Q { c: z.pool.current_tick_index as int, p: z.pool.sqrt_price.d(), l: z.pool.liquidity.d(), rem: z.rem, tin: z.tin, tout: z.tout, fee: z.fee, ts: tidx(z.ts) } }
/// the contract's swap is a run of rounds to the end of its amount
pub open spec fn swap_rounds(a: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, c: CalculateSwapResult, tr: Seq<Q>, ws: Seq<W>) -> bool {
    let e = env_at(a, k, xy, by_in, lim); let q = tr.last();
    rounds(e, begin_at(a.pool(k), amt), tr, ws) && env_ok(e) && sound(e, begin_at(a.pool(k), amt)) && q.rem == 0 && q.tin == c.amount_in.d() && q.tout == c.amount_out.d() && q.fee == c.fee.d() && q.p == c.target_sqrt_price.d() && q.c == c.pool.current_tick_index && q.l == c.pool.liquidity.d() && q.ts == tidx(c.ticks@)
}
pub proof fn l_look_of(a: Invariant, k: PoolKey, e: Env, c: int, sl: int, lt: Option<(i32, bool)>) requires e == env_at(a, k, e.xy, e.by, e.lim), found(a, k, c, e.xy, e.lim, sl, lt) ensures look(e, c, sl, match lt { Some((i, h)) => Some((i as int, h)), None => None }) {
    let m = a.tickmap.bitmap.m(); l_bits(m, k, c, e.s, e.xy); match lt { Some((i, _)) => { let g = tnear(m, k, c, e.s, e.xy, i as int); assert(g == nearest(m, k, c, e.s, !e.xy, i as int)); }, None => {} }
}
pub proof fn l_sound_start(a: Invariant, k: PoolKey, xy: bool, by: bool, lim: int, amt: int)
    requires a.wf(), a.has_pool(k), amt > 0, if xy { lim < a.pool(k).sqrt_price.d() && lim <= MAX_SQRT_PRICE } else { lim > a.pool(k).sqrt_price.d() && lim >= MIN_SQRT_PRICE }
    ensures ({ let e = env_at(a, k, xy, by, lim); let q = begin_at(a.pool(k), amt); env_ok(e) && sound(e, q) && rounds(e, q, seq![q], Seq::empty()) && q == run_q(Run { pool: a.pool(k), rem: amt, tin: 0, tout: 0, fee: 0, ts: Seq::empty() }) })
{ broadcast use uint_ranges; reveal(u256_val); reveal(u128_val); l_pwf(a.pools, a.pool_keys, k); l_price_ends(); let p = a.pool(k); l_price_range(p.current_tick_index as int); let e = env_at(a, k, xy, by, lim); l_none(e, begin_at(p, amt)); assert(tidx(Seq::<Tick>::empty()) =~= Seq::<int>::empty()); }
pub proof fn l_round_q(a: Invariant, k: PoolKey, e: Env, z: Run, lt: Option<(i32, bool)>, w: W, p1: Pool, rem1: int, t0: UpdatePoolTick, t1: UpdatePoolTick, p2: Pool, add: int, rem2: int, cr: bool, ts2: Seq<Tick>, pf: int)
    requires e == env_at(a, k, e.xy, e.by, e.lim), z.rem != 0, w.x == (match lt { Some((i, h)) => Some((i as int, h)), None => None }), look(e, z.pool.current_tick_index as int, w.sl, w.x), stepw(e, run_q(z), w), w.ain >= 0, w.aout >= 0, w.fa >= 0, z.pool.liquidity.d() != 0 && e.by ==> e.f <= E12, !step_err(z.pool.sqrt_price.d(), w.sl, z.pool.liquidity.d(), z.rem, e.by, e.f),
        rem1 == left(e, run_q(z), w), p1.current_tick_index == z.pool.current_tick_index, p1.liquidity == z.pool.liquidity, p1.sqrt_price.d() == w.n, !(w.n == e.lim && rem1 != 0),
        match lt { Some((i, true)) => t0 == UpdatePoolTick::TickInitialized(a.tick(k, i)) && a.tick(k, i).index == i, Some((i, false)) => t0 == UpdatePoolTick::TickUninitialized(i), None => t0 == UpdatePoolTick::NoTick },
        !at_tick(w) ==> t1 == t0 && !sel_err(w.n, e.s) && p2.current_tick_index as int == stop_tick(p1.current_tick_index as int, falign(sel(w.n), e.s), e.xy) && p2 == (Pool { current_tick_index: p2.current_tick_index, ..p1 }) && add == 0 && rem2 == rem1 && !cr,
        at_tick(w) ==> tick_done(p1, p2, t0, t1, w.n, rem1, e.by, e.xy, now(), pf, k.fee_tier, (add, rem2, cr)) && !step_price_err(w.n, p1.liquidity.d(), rem1, e.f, e.by, e.xy),
        ts2 == (if t1 is TickInitialized && cr { z.ts.push(t1->TickInitialized_0) } else { z.ts }), !at_end(e, p2.current_tick_index as int)
    ensures ({ let q2 = run_q(Run { pool: p2, rem: rem2, tin: z.tin + w.ain + w.fa + add, tout: z.tout + w.aout, fee: z.fee + w.fa, ts: ts2 }); p2.sqrt_price.d() == w.n && qround(e, run_q(z), w, q2) })
{
    broadcast use uint_ranges; reveal(u256_val); reveal(fee_booked); let q = run_q(z); let q2 = run_q(Run { pool: p2, rem: rem2, tin: z.tin + w.ain + w.fa + add, tout: z.tout + w.aout, fee: z.fee + w.fa, ts: ts2 });
    assert(p2.liquidity.d() >= 0 && p2.liquidity.d() <= U256::umax());
    match lt { Some((i, h)) => { assert((i as int) as i32 == i); if h { let t = a.tick(k, i); assert((e.nets)(i as int) == net(t)); } }, None => {} }
    let g = after(e, q, w); assert(g.ts =~= q2.ts); assert(g.c == q2.c); assert(g.l == q2.l); assert(g.rem == q2.rem); assert(g.tin == q2.tin); assert(fine(e, q, w));
}
//@fi
//@if sim
//@fn src/invariant_storage.rs Invariant::calculate_swap -> r rlimit=60
//@else
//@fn src/invariant_storage.rs Invariant::calculate_swap -> r
//@fi
    requires self.wf()
    ensures match r { Ok(c) => calc_ok(*self, pool_key, x_to_y, amount.d(), by_amount_in, sqrt_price_limit.d(), c), Err(_) => true },
//@if sim
        r.is_ok() ==> exists|tr: Seq<Q>, ws: Seq<W>| #[trigger] swap_rounds(*self, pool_key, x_to_y, amount.d(), by_amount_in, sqrt_price_limit.d(), r->Ok_0, tr, ws),
//@fi
//@assumed
        match r { Ok(c) => calc_of(*self, pool_key, x_to_y, amount.d(), by_amount_in, sqrt_price_limit.d()) == Some(c), Err(_) => calc_of(*self, pool_key, x_to_y, amount.d(), by_amount_in, sqrt_price_limit.d()) is None },
//@pre
//@if sim
    hide(rounds); hide(qround); hide(look); hide(sound); hide(env_ok); hide(bnear); hide(bnone);
//@fi
    proof { broadcast use uint_ranges; reveal(u256_val); reveal(u128_val); }
    let ghost (a, k, lim) = (*self, pool_key, sqrt_price_limit.d());
//@after event_fee_amount
    proof { l_run_start(a, k, x_to_y, amount.d(), by_amount_in, lim); l_pwf(a.pools, a.pool_keys, k); }
    let ghost mut z = Run { pool, rem: amount.d(), tin: 0, tout: 0, fee: 0, ts: Seq::empty() };
    proof { assert(ticks@ =~= Seq::<Tick>::empty()); }
//@if solv
    proof { l_kept_start(a, k, x_to_y, ticks@); }
//@fi
//@if sim
    let ghost e = env_at(a, k, x_to_y, by_amount_in, lim); let ghost q0 = begin_at(a.pool(k), amount.d()); let ghost mut tr = seq![q0]; let ghost mut ws: Seq<W> = Seq::empty();
    proof { l_sound_start(a, k, x_to_y, by_amount_in, lim, amount.d()); }
//@fi
//@loop 0
//@if sim
    invariant e == env_at(a, k, x_to_y, by_amount_in, lim), q0 == begin_at(a.pool(k), amount.d()), env_ok(e), sound(e, q0), rounds(e, q0, tr, ws), tr.last() == run_q(z),
//@fi
//@if solv
    invariant kept(a, k, x_to_y, pool, ticks@, total_amount_in.d(), total_amount_out.d()),
//@else
//@if sim
//@else
    invariant
//@fi
//@fi
        a == *self, a.wf(), k == pool_key, lim == sqrt_price_limit.d(), a.has_pool(k), event_start_sqrt_price == a.pool(k).sqrt_price, current_timestamp == now(), tick_ok(tick_limit as int), tick_limit == (if x_to_y { min_tick_of(k.fee_tier.tick_spacing as int) } else { max_tick_of(k.fee_tier.tick_spacing as int) }),
        z == (Run { pool, rem: remaining_amount.d(), tin: total_amount_in.d(), tout: total_amount_out.d(), fee: event_fee_amount.d(), ts: ticks@ }), run_ok(a, k, x_to_y, amount.d(), by_amount_in, lim, z)
    decreases (if remaining_amount.d() > 0 { 1int } else { 0int }), (if x_to_y { pool.sqrt_price.d() - lim } else { lim - pool.sqrt_price.d() }), (if x_to_y { pool.current_tick_index - MIN_TICK } else { MAX_TICK - pool.current_tick_index })
//@loopin 0
    let ghost p0 = pool; proof { broadcast use uint_ranges; reveal(u256_val); reveal(u128_val);
        assert forall|q: Pool, f: int, xy: bool, pf: int| #[trigger] fee_booked(p0, q, f, xy, pf) implies q.sqrt_price == p0.sqrt_price && q.current_tick_index == p0.current_tick_index && q.liquidity == p0.liquidity by { reveal(fee_booked); } }
//@after result
    proof { assert(found(a, k, p0.current_tick_index as int, x_to_y, lim, swap_limit.d(), limiting_tick)); l_found_ticks(a, k, p0.current_tick_index as int, x_to_y, lim, swap_limit.d(), limiting_tick, p0.sqrt_price.d()); l_step_use(p0.sqrt_price.d(), swap_limit.d(), p0.liquidity.d(), remaining_amount.d(), by_amount_in, k.fee_tier.fee.d(), result.next_sqrt_price.d(), result.amount_in.d(), result.amount_out.d(), result.fee_amount.d()); }
//@after tick_update
//@if sim
    let ghost z0 = z;
//@fi
    let ghost (p1, rem1, t0) = (pool, remaining_amount.d(), tick_update);
//@after reached_tick_limit
    proof { broadcast use uint_ranges; reveal(u256_val);
        if !reached_tick_limit {
//@if solv
            l_round_kept(a, k, x_to_y, amount.d(), by_amount_in, lim, z, swap_limit.d(), limiting_tick, result.next_sqrt_price.d(), result.amount_in.d(), result.amount_out.d(), result.fee_amount.d(), Pool { sqrt_price: p0.sqrt_price, ..p1 }, p1, rem1, t0, tick_update, pool, amount_to_add.d(), remaining_amount.d(), has_crossed, ticks@);
//@fi
            l_round(a, k, x_to_y, amount.d(), by_amount_in, lim, z, swap_limit.d(), limiting_tick, result.next_sqrt_price.d(), result.amount_in.d(), result.amount_out.d(), result.fee_amount.d(), Pool { sqrt_price: p0.sqrt_price, ..p1 }, p1, rem1, t0, tick_update, pool, amount_to_add.d(), remaining_amount.d(), has_crossed, ticks@);
//@if sim
            let w = W { sl: swap_limit.d(), x: match limiting_tick { Some((i, h)) => Some((i as int, h)), None => None }, n: result.next_sqrt_price.d(), ain: result.amount_in.d(), aout: result.amount_out.d(), fa: result.fee_amount.d() };
            l_look_of(a, k, e, p0.current_tick_index as int, w.sl, limiting_tick);
            let q2 = run_q(Run { pool, rem: remaining_amount.d(), tin: total_amount_in.d(), tout: total_amount_out.d(), fee: event_fee_amount.d(), ts: ticks@ });
            assert(qround(e, run_q(z), w, q2)) by { l_round_q(a, k, e, z, limiting_tick, w, p1, rem1, t0, tick_update, pool, amount_to_add.d(), remaining_amount.d(), has_crossed, ticks@, a.config.protocol_fee.d()); }
            l_more(e, q0, tr, ws, w, q2); tr = tr.push(q2); ws = ws.push(w);
//@fi
        z = Run { pool, rem: remaining_amount.d(), tin: total_amount_in.d(), tout: total_amount_out.d(), fee: event_fee_amount.d(), ts: ticks@ }; } }
//@if sim
//@tail
    proof { if __tail is Ok { assert(swap_rounds(a, k, x_to_y, amount.d(), by_amount_in, lim, __tail->Ok_0, tr, ws)); } }
//@fi
//@end
