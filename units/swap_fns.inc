//@enum src/invariant_service.rs RouteType
//@struct io/src/lib.rs SwapHop copy
//@struct io/src/lib.rs QuoteResult
/// what an executed swap does, all of it
pub open spec fn swapped(a: Invariant, b: Invariant, u: ActorId, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, c: CalculateSwapResult) -> bool {
    &&& calc_of(a, k, xy, amt, by_in, lim) == Some(c) && calc_ok(a, k, xy, amt, by_in, lim, c)
    &&& b == (Invariant { pools: b.pools, ticks: b.ticks, balances: b.balances, ..a })
    &&& b.pools.pools.m() == a.pools.pools.m().insert(k, c.pool) && b.ticks.ticks.m() == put(a.ticks.ticks.m(), k, c.ticks@)
    &&& pair_swapped(b, a, u, if xy { k.token_x } else { k.token_y }, c.amount_in.d(), if xy { k.token_y } else { k.token_x }, c.amount_out.d())
}
pub open spec fn pair_swapped(s: Invariant, a: Invariant, who: ActorId, x: ActorId, tx: int, y: ActorId, ty: int) -> bool {
    &&& tx <= lbal(a.balances, who, x)
    &&& forall|u: ActorId, t: ActorId| #[trigger] lbal(s.balances, u, t) == (if u == who && t == x { lbal(a.balances, u, t) - tx } else if u == who && t == y { lbal(a.balances, u, t) + ty } else { lbal(a.balances, u, t) })
}
pub open spec fn lim_of(xy: bool) -> int { if xy { MIN_SQRT_PRICE as int } else { MAX_SQRT_PRICE as int } }
pub open spec fn hop(a: Invariant, b: Invariant, u: ActorId, h: SwapHop, amt: int, out: int) -> bool { b.wf() && exists|c: CalculateSwapResult| #[trigger] swapped(a, b, u, h.pool_key, h.x_to_y, amt, true, lim_of(h.x_to_y), c) && out == c.amount_out.d() }
/// each hop spends the output of the one before
pub open spec fn routed(a: Invariant, b: Invariant, u: ActorId, hs: Seq<SwapHop>, amt: int, out: int) -> bool decreases hs.len() {
    if hs.len() == 0 { b == a && out == amt } else { exists|m: Invariant, x: int| routed(a, m, u, hs.drop_last(), amt, x) && #[trigger] hop(m, b, u, hs.last(), x, out) }
}
/// what quoting the hops one after the other, all in the same state, gives
pub open spec fn quoted(a: Invariant, hs: Seq<SwapHop>, amt: int) -> Option<int> decreases hs.len() {
    if hs.len() == 0 { Some(amt) } else { match quoted(a, hs.drop_last(), amt) { None => None, Some(x) => match calc_of(a, hs.last().pool_key, hs.last().x_to_y, x, true, lim_of(hs.last().x_to_y)) { None => None, Some(c) => Some(c.amount_out.d()) } } }
}
pub proof fn l_put(a: Invariant, k: PoolKey, ts: Seq<Tick>)
    requires forall|j: int| #![trigger ts[j]] 0 <= j < ts.len() ==> thas(a.ticks, k, ts[j].index) && crossed_tick(a.tick(k, ts[j].index), ts[j])
    ensures ({ let m = put(a.ticks.ticks.m(), k, ts); &&& m.dom() == a.ticks.ticks.m().dom()
        &&& forall|q: PoolKey, i: i32| #[trigger] thas(a.ticks, q, i) ==> (m[(q, i)] == a.tick(q, i) || q == k && crossed_tick(a.tick(q, i), m[(q, i)])) })
    decreases ts.len()
{
    if ts.len() > 0 { let d = ts.drop_last(); assert forall|j: int| #![trigger d[j]] 0 <= j < d.len() implies thas(a.ticks, k, d[j].index) && crossed_tick(a.tick(k, d[j].index), d[j]) by { assert(d[j] == ts[j]); }
        l_put(a, k, d); let m = put(a.ticks.ticks.m(), k, ts); let n = put(a.ticks.ticks.m(), k, d); let t = ts[ts.len() - 1]; assert(thas(a.ticks, k, t.index)); assert(m.dom() =~= a.ticks.ticks.m().dom()); }
    else { assert(put(a.ticks.ticks.m(), k, ts) == a.ticks.ticks.m()); }
}
/// the swap keeps everything well formed: the liquidity of the pool is the one of its new tick, the ticks keep their sums
pub proof fn l_swapped(a: Invariant, b: Invariant, k: PoolKey, xy: bool, amt: int, by_in: bool, lim: int, c: CalculateSwapResult)
    requires a.wf(), calc_ok(a, k, xy, amt, by_in, lim, c), b.positions == a.positions, b.pool_keys == a.pool_keys, b.tickmap == a.tickmap, b.pools.pools.m() == a.pools.pools.m().insert(k, c.pool), b.ticks.ticks.m() == put(a.ticks.ticks.m(), k, c.ticks@)
    ensures b.pools_wf(), b.ticks_wf(), b.positions_wf()
{
    l_put(a, k, c.ticks@); l_pwf(a.pools, a.pool_keys, k);
    l_pwf_set(a.pools, b.pools, a.pool_keys, k);
    assert forall|q: PoolKey, i: i32| #[trigger] thas(b.ticks, q, i) == thas(a.ticks, q, i) by { assert(b.ticks.ticks.m().dom().contains((q, i)) == a.ticks.ticks.m().dom().contains((q, i))); }
    assert(b.ticks_wf()) by { reveal(twf); assert forall|q: PoolKey, i: i32| #[trigger] thas(b.ticks, q, i) implies phas(b.pools, q) && tick_here(q, i, b.ticks.ticks.m()[(q, i)]) by { assert(thas(a.ticks, q, i)); } 
        assert forall|q: PoolKey, i: i32| key_ok(q) && on_grid(q, i) implies #[trigger] tmark(b.tickmap, q, i) == thas(b.ticks, q, i) by { l_twf(a.ticks, a.tickmap, a.pools, q, i); } }
    assert(b.positions_wf()) by { reveal(sums); let m = a.positions.pm();
        assert forall|q: PoolKey, i: i32| #[trigger] thas(b.ticks, q, i) implies b.ticks.ticks.m()[(q, i)].liquidity_gross.d() == msum(m, gf(q, i)) && net(b.ticks.ticks.m()[(q, i)]) == msum(m, nf(q, i)) by { assert(thas(a.ticks, q, i)); }
        assert forall|q: PoolKey| #[trigger] phas(b.pools, q) implies b.pools.pools.m()[q].liquidity.d() == msum(m, af(q, b.pools.pools.m()[q].current_tick_index as int)) by { assert(phas(a.pools, q)); }
        assert forall|x: (ActorId, u32)| #[trigger] m.dom().contains(x) implies pos_ok(b.ticks, b.pools, m[x]) by { assert(pos_ok(a.ticks, a.pools, m[x])); } }
}
//@fn src/invariant_service.rs InvariantService::swap -> r svc
    requires old(invariant).wf()
    ensures *final(self) == *old(self), match r { Ok(c) => final(invariant).wf() && swapped(*old(invariant), *final(invariant), old(self).caller(), pool_key, x_to_y, amount.d(), by_amount_in, sqrt_price_limit.d(), c), Err(_) => true }
//@pre
    let ghost a = *invariant; let ghost u = self.caller();
//@after calculate_swap_result
    let ghost c = calculate_swap_result; let ghost ts = c.ticks@;
//@loop 0
    invariant c == calculate_swap_result, ts == c.ticks@, __k0 <= ts.len(), *self == *old(self), *invariant == (Invariant { ticks: invariant.ticks, ..a }), put(a.ticks.ticks.m(), pool_key, ts.take(__k0 as int)) == (invariant).ticks.ticks.m()
    decreases ts.len() - __k0
//@loopend 0
    proof { let n = __k0 as int; assert(ts.take(n).drop_last() =~= ts.take(n - 1)); assert(ts.take(n).last() == ts[n - 1]); }
//@tail
    proof { assert(ts.take(ts.len() as int) =~= ts); l_swapped(a, *invariant, pool_key, x_to_y, amount.d(), by_amount_in, sqrt_price_limit.d(), c); l_pwf(a.pools, a.pool_keys, pool_key); }
//@end
//@fn src/invariant_service.rs InvariantService::quote -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), match (r, calc_of(*old(invariant), pool_key, x_to_y, amount.d(), by_amount_in, sqrt_price_limit.d())) { (Ok(q), Some(c)) => q.amount_in == c.amount_in && q.amount_out == c.amount_out && q.target_sqrt_price == c.target_sqrt_price && q.ticks == c.ticks, (Err(_), None) => true, _ => false }
//@end
pub proof fn l_quoted_none(a: Invariant, hs: Seq<SwapHop>, amt: int, n: int) requires 0 <= n <= hs.len(), quoted(a, hs.take(n), amt) is None ensures quoted(a, hs, amt) is None decreases hs.len() - n {
    if n == hs.len() { assert(hs.take(n) =~= hs); } else { assert(hs.take(n + 1).drop_last() =~= hs.take(n)); l_quoted_none(a, hs, amt, n + 1); } }
//@fn src/invariant_service.rs InvariantService::route -> r svc
    requires old(invariant).wf()
    ensures match route_type { RouteType::Quote => *final(invariant) == *old(invariant) && (match r { Ok(x) => quoted(*old(invariant), swaps@, amount_in.d()) == Some(x.d()), Err(_) => quoted(*old(invariant), swaps@, amount_in.d()) is None }),
        RouteType::Swap(s) => r is Ok ==> *final(s) == *s && final(invariant).wf() && routed(*old(invariant), *final(invariant), (*s).caller(), swaps@, amount_in.d(), r->Ok_0.d()) }
//@pre
    let ghost a = *invariant; let ghost r0 = route_type; let ghost hs = swaps@;
//@loop 0
    invariant hs == swaps@, a == *old(invariant), a.wf(), __k0 <= hs.len(), (invariant).wf(), match route_type { RouteType::Quote => r0 is Quote && *invariant == a && quoted(a, hs.take(__k0 as int), amount_in.d()) == Some(next_swap_amount.d()),
        RouteType::Swap(s) => r0 is Swap && *s == *(r0->Swap_0) && *final(s) == *final(r0->Swap_0) && routed(a, *invariant, (*s).caller(), hs.take(__k0 as int), amount_in.d(), next_swap_amount.d()) }
    decreases hs.len() - __k0
//@loopin 0
    let ghost (n, st, x) = (__k0 as int, *invariant, next_swap_amount.d());
    proof { assert(hs.take(n + 1).drop_last() =~= hs.take(n)); assert(hs.take(n + 1).last() == hs[n]); if quoted(a, hs.take(n + 1), amount_in.d()) is None { l_quoted_none(a, hs, amount_in.d(), n + 1); } }
//@after result
    proof { if r0 is Swap { let u = (*(r0->Swap_0)).caller(); assert(swapped(st, *invariant, u, pool_key, x_to_y, x, true, lim_of(x_to_y), result)); assert(hop(st, *invariant, u, hs[n], x, result.amount_out.d())); } }
//@tail
    proof { assert(hs.take(hs.len() as int) =~= hs); }
//@end
//@fn src/invariant_service.rs InvariantService::swap_route -> r svc
    requires old(invariant).wf()
    ensures match r { Ok(x) => *final(self) == *old(self) && final(invariant).wf() && routed(*old(invariant), *final(invariant), old(self).caller(), swaps@, amount_in.d(), x.d()) && slippage.d() <= E12 && x.d() >= min_out(expected_amount_out.d(), slippage.d()), Err(_) => true }
//@end
//@fn src/invariant_service.rs InvariantService::quote_route -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), match r { Ok(x) => quoted(*old(invariant), swaps@, amount_in.d()) == Some(x.d()), Err(_) => quoted(*old(invariant), swaps@, amount_in.d()) is None }
//@end
