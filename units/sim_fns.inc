pub open spec fn lnet(t: LiquidityTick) -> int { if t.sign { t.liquidity_change.d() } else { -t.liquidity_change.d() } }
pub open spec fn lcross(t: LiquidityTick, cur: int) -> int { if cur >= t.index { -lnet(t) } else { lnet(t) } }
//@fn sdk/src/wasm/storage/tick.rs LiquidityTick::cross -> r
    ensures *final(self) == *old(self), match r { Ok(_) => *final(pool) == (Pool { liquidity: final(pool).liquidity, ..*old(pool) }) && final(pool).liquidity.d() == old(pool).liquidity.d() + lcross(*old(self), old(pool).current_tick_index as int),
        Err(_) => ({ let l = old(pool).liquidity.d() + lcross(*old(self), old(pool).current_tick_index as int); l < 0 || l > U256::umax() }) }
//@end
pub open spec fn sgn(b: bool, v: int) -> int { if b { v } else { -v } }
pub open spec fn lenough(l: int, n: int, a: int, f: int, by_in: bool, xy: bool) -> bool { l == 0 || step_price(n, l, a, f, by_in, xy) != n }
/// the tick a swap stopped at: crossed, or the rest of the input turned into a fee
pub open spec fn ltick_done(p: Pool, q: Pool, t: UpdatePoolTick, n: int, rem: int, by_in: bool, xy: bool, ft: FeeTier, r: (int, int, bool)) -> bool {
    let e = lenough(p.liquidity.d(), n, rem, ft.fee.d(), by_in, xy);
    q == (Pool { current_tick_index: q.current_tick_index, liquidity: q.liquidity, ..p }) && match t {
        UpdatePoolTick::TickInitialized(a) => q.current_tick_index == (if xy && e { a.index - ft.tick_spacing } else { a.index as int })
            && if !xy || e { q.liquidity.d() == p.liquidity.d() + lcross(a, p.current_tick_index as int) && r == (0int, rem, true) } else { q.liquidity == p.liquidity && r == (if by_in { rem } else { 0 }, 0int, false) },
        UpdatePoolTick::TickUninitialized(i) => q.liquidity == p.liquidity && q.current_tick_index == (if xy && e { i - ft.tick_spacing } else { i as int }) && r == (0int, rem, false),
        _ => false,
    }
}
pub open spec fn lupd_ok(t: UpdatePoolTick) -> bool { match t { UpdatePoolTick::TickInitialized(a) => tick_ok(a.index as int), UpdatePoolTick::TickUninitialized(i) => tick_ok(i as int), _ => true } }
//@fn src/contracts/storage/pool.rs Pool::update_tick -> r
    requires lupd_ok(*old(tick)), fee_tier.tick_spacing <= 65535
    ensures *final(tick) == *old(tick),
        *old(tick) == UpdatePoolTick::NoTick || swap_limit.d() != result.next_sqrt_price.d() ==> (match r {
            Ok(o) => in_range(result.next_sqrt_price.d()) && final(self).current_tick_index as int == stop_tick(old(self).current_tick_index as int, falign(sel(result.next_sqrt_price.d()), fee_tier.tick_spacing as int), x_to_y)
                && *final(self) == (Pool { current_tick_index: final(self).current_tick_index, ..*old(self) }) && o.0.d() == 0 && o.1 == remaining_amount && !o.2,
            Err(_) => sel_err(result.next_sqrt_price.d(), fee_tier.tick_spacing as int) }),
        !(*old(tick) == UpdatePoolTick::NoTick || swap_limit.d() != result.next_sqrt_price.d()) && !step_price_err(result.next_sqrt_price.d(), old(self).liquidity.d(), remaining_amount.d(), fee_tier.fee.d(), by_amount_in, x_to_y) ==> (match r {
            Ok(o) => ltick_done(*old(self), *final(self), *old(tick), result.next_sqrt_price.d(), remaining_amount.d(), by_amount_in, x_to_y, fee_tier, (o.0.d(), o.1.d(), o.2)),
            Err(_) => (*old(tick)) is TickInitialized && (!x_to_y || lenough(old(self).liquidity.d(), result.next_sqrt_price.d(), remaining_amount.d(), fee_tier.fee.d(), by_amount_in, x_to_y))
                && ({ let l = old(self).liquidity.d() + lcross((*old(tick))->TickInitialized_0, old(self).current_tick_index as int); l < 0 || l > U256::umax() }) })
//@end
//@fn src/contracts/storage/pool.rs Pool::update_liquidity -> r
    ensures match r { Ok((x, y)) => ({ let (c, p, l) = (old(self).current_tick_index as i32 as int, old(self).sqrt_price.d(), liquidity_delta.d());
            x.d() == pos_x(c, p, l, liquidity_sign, upper_tick as int, lower_tick as int) && y.d() == pos_y(c, p, l, liquidity_sign, upper_tick as int, lower_tick as int)
            && *final(self) == (Pool { liquidity: final(self).liquidity, ..*old(self) })
            && final(self).liquidity.d() == old(self).liquidity.d() + (if lower_tick <= c < upper_tick { sgn(liquidity_sign, l) } else { 0 }) }),
        Err(_) => true }
//@end

// ---- the simulated swap
pub open spec fn at_idx(ts: Seq<LiquidityTick>, i: int) -> bool { exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).index == i }
pub open spec fn net_at(ts: Seq<LiquidityTick>, i: int) -> int { if at_idx(ts, i) { lnet(ts[choose|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).index == i]) } else { 0 } }
pub open spec fn env_of(tickmap: Tickmap, ft: FeeTier, ts: Seq<LiquidityTick>, xy: bool, by: bool, lim: int) -> Env { Env { bits: bits_of(tickmap.bitmap.m(), 0int), nets: |i: int| net_at(ts, i), s: ft.tick_spacing as int, f: ft.fee.d(), xy, by, lim } }
pub open spec fn start_of(p: Pool, amt: int) -> Q { Q { c: p.current_tick_index as int, p: p.sqrt_price.d(), l: p.liquidity.d(), rem: amt, tin: 0, tout: 0, fee: 0, ts: Seq::empty() } }
/// the ticks given are those of the map, each once
pub open spec fn ticks_given(e: Env, ts: Seq<LiquidityTick>) -> bool {
    &&& forall|i: int| 0 <= i < ts.len() ==> tick_ok((#[trigger] ts[i]).index as int)
    &&& forall|i: int, j: int| #![trigger ts[i], ts[j]] 0 <= i < j < ts.len() ==> ts[i].index != ts[j].index
    &&& forall|i: int| tick_ok(i) && i % e.s == 0 && #[trigger] (e.bits)(idx(i, e.s)) ==> at_idx(ts, i)
}
pub open spec fn idxs(ts: Seq<LiquidityTick>) -> Seq<int> { Seq::new(ts.len(), |j: int| ts[j].index as int) }
pub open spec fn limit_wrong(p: int, lim: int, xy: bool) -> bool { if xy { p <= lim || lim > MAX_SQRT_PRICE } else { p >= lim || lim < MIN_SQRT_PRICE } }
pub open spec fn sim_is(o: SimulateSwapResult, p0: int, q: Q) -> bool { o.amount_in.d() == q.tin && o.amount_out.d() == q.tout && o.fee.d() == q.fee && o.start_sqrt_price.d() == p0 && o.target_sqrt_price.d() == q.p && idxs(o.crossed_ticks@) == q.ts }
/// what the client library answers: the rounds of the contract, up to the end, to where the contract fails, or to its own limit of steps
pub open spec fn simulated(e: Env, q0: Q, tr: Seq<Q>, ws: Seq<W>, o: SimulateSwapResult) -> bool {
    &&& rounds(e, q0, tr, ws) && !o.state_outdated
    &&& (o.global_insufficient_liquidity ==> dead(e, tr.last()))
    &&& (!o.global_insufficient_liquidity ==> sim_is(o, q0.p, tr.last()))
    &&& (o.max_swap_steps_reached ==> ws.len() > MAX_SWAP_STEPS)
    &&& (!o.global_insufficient_liquidity && !o.max_swap_steps_reached ==> tr.last().rem == 0)
}
pub open spec fn now_at(p: Pool, rem: int, tin: int, tout: int, fee: int, ts: Seq<LiquidityTick>) -> Q { Q { c: p.current_tick_index as int, p: p.sqrt_price.d(), l: p.liquidity.d(), rem, tin, tout, fee, ts: idxs(ts) } }
pub proof fn l_net_at(e: Env, ts: Seq<LiquidityTick>, t: LiquidityTick) requires ticks_given(e, ts), ts.contains(t) ensures net_at(ts, t.index as int) == lnet(t) {
    let j = choose|j: int| 0 <= j < ts.len() && ts[j] == t; assert(ts[j].index == t.index); let i = choose|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).index == t.index as int; if i < j { assert(ts[i].index != ts[j].index); } if j < i { assert(ts[j].index != ts[i].index); }
}
pub proof fn l_range(c: int, s: int, xy: bool) requires tick_ok(c), 1 <= s <= 100 ensures tick_ok(limit_up(c, s)), tick_ok(limit_down(c, s)) { l_limits(c, s); }
pub proof fn l_step_of(e: Env, q: Q, w: W) requires w.n == step_next(q.p, w.sl, q.l, q.rem, e.by, e.f), w.ain == step_in(q.p, w.sl, q.l, q.rem, e.by, e.f), w.aout == step_out(q.p, w.sl, q.l, q.rem, e.by, e.f), w.fa == step_fee(q.p, w.sl, q.l, q.rem, e.by, e.f)
    ensures stepw(e, q, w), step_stop(q.p, w.sl, q.l, q.rem, e.by, e.f) ==> step_err(q.p, w.sl, q.l, q.rem, e.by, e.f) {}
pub proof fn l_step_is(e: Env, q: Q, w: W, n: int, ain: int, aout: int, fa: int) requires stepw(e, q, w), step_is(q.p, w.sl, q.l, q.rem, e.by, e.f, n, ain, aout, fa) ensures w.n == n, w.ain == ain, w.aout == aout, w.fa == fa {}
//@fn sdk/src/wasm/swap.rs simulate_invariant_swap -> r rlimit=60
    requires ({ let e = env_of(tickmap, fee_tier, ticks@, x_to_y, by_amount_in, sqrt_price_limit.d()); let q0 = start_of(pool, amount.d());
        1 <= fee_tier.tick_spacing <= 100 && tick_ok(q0.c) && q0.c % e.s == 0 && in_range(q0.p) && tick_price(q0.c) <= q0.p && (tick_ok(q0.c + e.s) ==> q0.p <= tick_price(q0.c + e.s)) && ticks_given(e, ticks@) && smooth(e, q0) })
    ensures ({ let e = env_of(tickmap, fee_tier, ticks@, x_to_y, by_amount_in, sqrt_price_limit.d()); let q0 = start_of(pool, amount.d());
        match r { Err(_) => q0.rem == 0 || limit_wrong(q0.p, e.lim, e.xy), Ok(o) => q0.rem != 0 && !limit_wrong(q0.p, e.lim, e.xy) && exists|tr: Seq<Q>, ws: Seq<W>| #[trigger] simulated(e, q0, tr, ws, o) } })
//@pre
    hide(step_next); hide(step_in); hide(step_out); hide(step_fee); hide(step_err); hide(step_stop); hide(step_price_err); hide(nearest); hide(none_near); hide(limit_up); hide(limit_down); hide(rounds); hide(step_is); hide(min_tick_of); hide(max_tick_of); hide(bnear); hide(bnone);
    let ghost lim = sqrt_price_limit.d(); let ghost e = env_of(tickmap, fee_tier, ticks@, x_to_y, by_amount_in, lim); let ghost q0 = start_of(pool, amount.d());
    proof { broadcast use uint_ranges; reveal(u256_val); l_price_ends(); }
//@after total_fee_amount
    let ghost mut tr = seq![q0]; let ghost mut ws: Seq<W> = Seq::empty();
    proof { assert(idxs(crossed_ticks@) =~= Seq::<int>::empty()); l_none(e, q0); assert(sound(e, q0)); }
//@loop 0
    invariant_except_break
        sound(e, tr.last()), tr.last() == now_at(pool, remaining_amount.d(), total_amount_in.d(), total_amount_out.d(), total_fee_amount.d(), crossed_ticks@), !global_insufficient_liquidity, !max_swap_steps_reached, swap_step_number == ws.len(), ws.len() <= MAX_SWAP_STEPS
    invariant e == env_of(tickmap, fee_tier, ticks@, x_to_y, by_amount_in, sqrt_price_limit.d()), lim == sqrt_price_limit.d(), 1 <= fee_tier.tick_spacing <= 100, env_ok(e), ticks_given(e, ticks@), smooth(e, q0), rounds(e, q0, tr, ws), !state_outdated, start_sqrt_price.d() == q0.p, q0.rem != 0, !limit_wrong(q0.p, e.lim, e.xy),
        tick_limit == (if x_to_y { min_tick_of(e.s) } else { max_tick_of(e.s) }), swap_step_number <= MAX_SWAP_STEPS + 1
    ensures
        global_insufficient_liquidity ==> dead(e, tr.last()),
        !global_insufficient_liquidity ==> tr.last() == now_at(pool, remaining_amount.d(), total_amount_in.d(), total_amount_out.d(), total_fee_amount.d(), crossed_ticks@),
        max_swap_steps_reached ==> ws.len() > MAX_SWAP_STEPS,
        !global_insufficient_liquidity && !max_swap_steps_reached ==> tr.last().rem == 0
    decreases MAX_SWAP_STEPS + 1 - ws.len()
//@loopin 0
    let ghost q = tr.last(); proof { l_bits(tickmap.bitmap.m(), 0int, q.c, e.s, e.xy); broadcast use uint_ranges; reveal(u256_val); assert(q.rem != 0); }
//@after limiting_tick
    let ghost x: Option<(int, bool)> = match limiting_tick { Some((i, h)) => Some((i as int, h)), None => None };
    let ghost w = W { sl: swap_limit.d(), x, n: step_next(q.p, swap_limit.d(), q.l, q.rem, e.by, e.f), ain: step_in(q.p, swap_limit.d(), q.l, q.rem, e.by, e.f), aout: step_out(q.p, swap_limit.d(), q.l, q.rem, e.by, e.f), fa: step_fee(q.p, swap_limit.d(), q.l, q.rem, e.by, e.f) };
    proof { l_range(q.c, e.s, e.xy); l_bits(tickmap.bitmap.m(), 0int, q.c, e.s, e.xy); match limiting_tick { Some((i, _)) => { let g = tnear(tickmap.bitmap.m(), 0int, q.c, e.s, e.xy, i as int); assert(g == nearest(tickmap.bitmap.m(), 0int, q.c, e.s, !e.xy, i as int)); }, None => {} } l_step_of(e, q, w); assert(look(e, q.c, w.sl, w.x)); assert(fine(e, tr.last(), w)); l_look(e, q, w.sl, w.x); }
//@after result
    proof { l_step_is(e, q, w, result.next_sqrt_price.d(), result.amount_in.d(), result.amount_out.d(), result.fee_amount.d()); l_stepw(e, q, w); if halts(e, q, w) { assert(dead(e, q)); } }
//@loop 1
    invariant __i <= ticks@.len(), __h ==> __i < ticks@.len() && ticks@[__i as int].index as i32 == tick_index, forall|j: int| 0 <= j < __i ==> (#[trigger] ticks@[j]).index as i32 != tick_index
    decreases ticks@.len() - __i, (if __h { 0int } else { 1int })
//@after tick_update
    let ghost (p1, t0) = (pool, tick_update);
    proof { match t0 { UpdatePoolTick::TickInitialized(t) => { l_net_at(e, ticks@, t); }, _ => {} } }
//@after reached_tick_limit
    proof { broadcast use uint_ranges; reveal(u256_val); let q2 = after(e, q, w);
        assert(q2.c == pool.current_tick_index && q2.l == pool.liquidity.d() && q2.rem == remaining_amount.d() && q2.tin == total_amount_in.d());
        assert(idxs(crossed_ticks@) =~= q2.ts);
        if !reached_tick_limit { assert(qround(e, q, w, q2)); l_keeps(e, q, w, q2); l_more(e, q0, tr, ws, w, q2); tr = tr.push(q2); ws = ws.push(w); } }
//@tail
    proof { assert(simulated(e, q0, tr, ws, __tail->Ok_0)); }
//@end
/// the client library's answer is the contract's: where the contract's rounds come to their end, the simulated ones do, with the same numbers
pub proof fn l_agree(e: Env, q0: Q, tr: Seq<Q>, ws: Seq<W>, o: SimulateSwapResult, tr2: Seq<Q>, ws2: Seq<W>)
    requires env_ok(e), sound(e, q0), simulated(e, q0, tr, ws, o), rounds(e, q0, tr2, ws2), tr2.last().rem == 0
    ensures !o.state_outdated, !o.global_insufficient_liquidity, !o.max_swap_steps_reached ==> sim_is(o, q0.p, tr2.last())
{ l_smooth(e, q0, tr2, ws2); if !o.max_swap_steps_reached { l_same_end(e, q0, tr, ws, tr2, ws2); } }
