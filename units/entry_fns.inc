// ---- what holds between messages
pub open spec fn key_ok(k: PoolKey) -> bool { 1 <= k.fee_tier.tick_spacing <= 100 && k.token_x.key() < k.token_y.key() && k.fee_tier.fee.d() < E12 }
pub open spec fn pool_ok(k: PoolKey, p: Pool) -> bool { key_ok(k) && tick_ok(p.current_tick_index as int) && p.current_tick_index as int % k.fee_tier.tick_spacing as int == 0 && p.start_timestamp <= now() && price_in(k, p.sqrt_price.d(), p.current_tick_index as int) }
/// the price lies between the current tick and the next usable one
pub open spec fn price_in(k: PoolKey, p: int, c: int) -> bool { tick_price(c) <= p <= MAX_SQRT_PRICE && (tick_ok(c + k.fee_tier.tick_spacing) ==> p <= tick_price(c + k.fee_tier.tick_spacing)) }
pub open spec fn tick_here(k: PoolKey, i: i32, t: Tick) -> bool { tick_ok(i as int) && i as int % k.fee_tier.tick_spacing as int == 0 && t.index == i && t.liquidity_gross.d() > 0 }
pub open spec fn phas(p: Pools, k: PoolKey) -> bool { p.pools.m().dom().contains(k) }
pub open spec fn thas(t: Ticks, k: PoolKey, i: i32) -> bool { t.ticks.m().dom().contains((k, i)) }
pub open spec fn tmark(t: Tickmap, k: PoolKey, i: i32) -> bool { inited(t.bitmap.m(), k, i as int, k.fee_tier.tick_spacing as int) }
pub open spec fn on_grid(k: PoolKey, i: i32) -> bool { tick_ok(i as int) && i as int % k.fee_tier.tick_spacing as int == 0 }
/// a pool is stored under its own kind of key, and listed
pub open spec fn pwf(p: Pools, ks: PoolKeys) -> bool { ks.wf() && forall|k: PoolKey| #![trigger phas(p, k)] #![trigger ks.has(k)] (phas(p, k) <==> ks.has(k)) && (phas(p, k) ==> pool_ok(k, p.pools.m()[k])) }
/// a tick is stored exactly where the bitmap marks one, under its own index, and some position ends at it
pub open spec fn twf(t: Ticks, m: Tickmap, p: Pools) -> bool {
    &&& forall|k: PoolKey, i: i32| #[trigger] thas(t, k, i) ==> phas(p, k) && tick_here(k, i, t.ticks.m()[(k, i)])
    &&& forall|k: PoolKey, i: i32| #![trigger thas(t, k, i)] #![trigger tmark(m, k, i)] key_ok(k) && on_grid(k, i) ==> thas(t, k, i) == tmark(m, k, i)
}
pub proof fn l_pwf(p: Pools, ks: PoolKeys, k: PoolKey) requires pwf(p, ks) ensures phas(p, k) == ks.has(k), phas(p, k) ==> pool_ok(k, p.pools.m()[k]), ks.wf() { reveal(pwf); let g = phas(p, k); }
pub proof fn l_pwf_set(p: Pools, p2: Pools, ks: PoolKeys, k: PoolKey) requires pwf(p, ks), phas(p, k), p2.pools.m() == p.pools.m().insert(k, p2.pools.m()[k]), pool_ok(k, p2.pools.m()[k]) ensures pwf(p2, ks), forall|q: PoolKey| phas(p2, q) == phas(p, q) { reveal(pwf); assert forall|q: PoolKey| phas(p2, q) == phas(p, q) by {} }
pub proof fn l_twf(t: Ticks, m: Tickmap, p: Pools, k: PoolKey, i: i32) requires twf(t, m, p) ensures thas(t, k, i) ==> phas(p, k) && tick_here(k, i, t.ticks.m()[(k, i)]), key_ok(k) && on_grid(k, i) ==> thas(t, k, i) == tmark(m, k, i) { reveal(twf); let g = thas(t, k, i); }
pub proof fn l_twf_pools(t: Ticks, m: Tickmap, p: Pools, p2: Pools) requires twf(t, m, p), forall|q: PoolKey| phas(p, q) ==> #[trigger] phas(p2, q) ensures twf(t, m, p2) { reveal(twf); }
pub proof fn l_twf_set(t: Ticks, t2: Ticks, m: Tickmap, p: Pools, k: PoolKey, i: i32) requires twf(t, m, p), thas(t, k, i), t2.ticks.m() == t.ticks.m().insert((k, i), t2.ticks.m()[(k, i)]), tick_here(k, i, t2.ticks.m()[(k, i)]) ensures twf(t2, m, p) { reveal(twf); assert forall|q: PoolKey, j: i32| thas(t2, q, j) == thas(t, q, j) by {} }
impl Invariant {
    pub open spec fn has_pool(&self, k: PoolKey) -> bool { phas(self.pools, k) }
    pub open spec fn pool(&self, k: PoolKey) -> Pool { self.pools.pools.m()[k] }
    pub open spec fn has_tick(&self, k: PoolKey, i: i32) -> bool { thas(self.ticks, k, i) }
    pub open spec fn tick(&self, k: PoolKey, i: i32) -> Tick { self.ticks.ticks.m()[(k, i)] }
    pub open spec fn marked(&self, k: PoolKey, i: i32) -> bool { tmark(self.tickmap, k, i) }
    pub open spec fn tiers_wf(&self) -> bool { self.fee_tiers.wf() && forall|t: FeeTier| #[trigger] self.fee_tiers.fee_tiers@.contains(t) ==> 1 <= t.tick_spacing <= 100 && t.fee.d() < E12 }
    pub open spec fn pools_wf(&self) -> bool { pwf(self.pools, self.pool_keys) }
    pub open spec fn ticks_wf(&self) -> bool { twf(self.ticks, self.tickmap, self.pools) }
    pub open spec fn positions_wf(&self) -> bool { sums(self.positions.positions.m(), self.ticks, self.pools) }
    pub open spec fn wf(&self) -> bool { self.ledger_wf() && self.positions.wf() && self.tiers_wf() && self.pools_wf() && self.ticks_wf() && self.positions_wf() }
}
//@include sums.inc
//@fn src/invariant_service.rs InvariantService::is_caller_admin -> r svc nostate
    ensures r == (invariant_storage.config.admin == self.caller())
//@end
//@fn src/invariant_service.rs InvariantService::change_protocol_fee -> r svc
    requires old(invariant).wf()
    ensures *final(self) == *old(self), match r { Ok(f) => final(invariant).wf() && old(self).caller() == old(invariant).config.admin && f == protocol_fee && *final(invariant) == (Invariant { config: InvariantConfig { protocol_fee, ..old(invariant).config }, ..*old(invariant) }), Err(_) => old(self).caller() != old(invariant).config.admin }
//@end
//@fn src/invariant_service.rs InvariantService::add_fee_tier -> r svc
    requires old(invariant).wf()
    ensures *final(self) == *old(self), match r {
        Ok(f) => final(invariant).wf() && old(self).caller() == old(invariant).config.admin && f == fee_tier && 1 <= fee_tier.tick_spacing <= 100 && fee_tier.fee.d() < E12
            && *final(invariant) == (Invariant { fee_tiers: final(invariant).fee_tiers, ..*old(invariant) }) && !old(invariant).fee_tiers.fee_tiers@.contains(fee_tier) && final(invariant).fee_tiers.fee_tiers@ == old(invariant).fee_tiers.fee_tiers@.push(fee_tier),
        Err(_) => old(self).caller() != old(invariant).config.admin || fee_tier.tick_spacing == 0 || fee_tier.tick_spacing > 100 || fee_tier.fee.d() >= E12 || old(invariant).fee_tiers.fee_tiers@.contains(fee_tier) }
//@pre
    proof { assert(Percentage::sone() == E12); assert(1i32.uv() == 1); }
//@tail
    proof { let (o, n) = (old(invariant).fee_tiers.fee_tiers@, invariant.fee_tiers.fee_tiers@);
        assert forall|t: FeeTier| #[trigger] n.contains(t) implies o.contains(t) || t == fee_tier by { let i = choose|i: int| 0 <= i < n.len() && n[i] == t; if i < o.len() { assert(o[i] == t); } } }
//@end
//@fn src/invariant_service.rs InvariantService::remove_fee_tier -> r svc
    requires old(invariant).wf()
    ensures *final(self) == *old(self), match r {
        Ok(f) => final(invariant).wf() && old(self).caller() == old(invariant).config.admin && f == fee_tier && *final(invariant) == (Invariant { fee_tiers: final(invariant).fee_tiers, ..*old(invariant) })
            && old(invariant).fee_tiers.fee_tiers@.contains(fee_tier) && (forall|t: FeeTier| #[trigger] final(invariant).fee_tiers.fee_tiers@.contains(t) <==> old(invariant).fee_tiers.fee_tiers@.contains(t) && t != fee_tier),
        Err(_) => old(self).caller() != old(invariant).config.admin || !old(invariant).fee_tiers.fee_tiers@.contains(fee_tier) }
//@end
//@fn src/invariant_service.rs InvariantService::change_fee_receiver -> r svc
    requires old(invariant).wf()
    ensures *final(self) == *old(self), match r {
        Ok(_) => final(invariant).wf() && old(self).caller() == old(invariant).config.admin && old(invariant).has_pool(pool_key) && *final(invariant) == (Invariant { pools: final(invariant).pools, ..*old(invariant) })
            && final(invariant).pools.pools.m() == old(invariant).pools.pools.m().insert(pool_key, Pool { fee_receiver, ..old(invariant).pool(pool_key) }),
        Err(_) => old(self).caller() != old(invariant).config.admin || !old(invariant).has_pool(pool_key) }
//@tail
    proof { let (a, b) = (*old(invariant), *invariant); l_pwf(a.pools, a.pool_keys, pool_key); l_pwf_set(a.pools, b.pools, a.pool_keys, pool_key); l_twf_pools(a.ticks, a.tickmap, a.pools, b.pools); l_sums_pool(a.positions.pm(), a.ticks, a.pools, b.pools, pool_key); }
//@end
//@fn src/invariant_service.rs InvariantService::withdraw_protocol_fee -> r svc
    requires old(invariant).wf()
    ensures *final(self) == *old(self), match r {
        Ok(_) => final(invariant).wf() && old(invariant).has_pool(pool_key) && ({ let (a, b, u) = (*old(invariant), *final(invariant), old(self).caller()); let (p, q) = (a.pool(pool_key), b.pool(pool_key));
            p.fee_receiver == u && q == (Pool { fee_protocol_token_x: q.fee_protocol_token_x, fee_protocol_token_y: q.fee_protocol_token_y, ..p }) && q.fee_protocol_token_x.d() == 0 && q.fee_protocol_token_y.d() == 0
            && b == (Invariant { pools: b.pools, balances: b.balances, ..a }) && b.pools.pools.m() == a.pools.pools.m().insert(pool_key, q)
            && pair_given(b, a, u, pool_key.token_x, p.fee_protocol_token_x.d(), pool_key.token_y, p.fee_protocol_token_y.d()) }),
        Err(_) => true }
//@tail
    proof { let (a, b) = (*old(invariant), *invariant); l_pwf(a.pools, a.pool_keys, pool_key); l_pwf_set(a.pools, b.pools, a.pool_keys, pool_key); l_twf_pools(a.ticks, a.tickmap, a.pools, b.pools); l_sums_pool(a.positions.pm(), a.ticks, a.pools, b.pools, pool_key); }
//@end
pub open spec fn pair_given(s: Invariant, a: Invariant, who: ActorId, x: ActorId, tx: int, y: ActorId, ty: int) -> bool {
    forall|u: ActorId, t: ActorId| #[trigger] lbal(s.balances, u, t) == (if u == who && t == x { lbal(a.balances, u, t) + tx } else if u == who && t == y { lbal(a.balances, u, t) + ty } else { lbal(a.balances, u, t) })
}
/// a new tick: nothing ends at it yet
pub open spec fn born(t: Tick, i: i32, p: Pool) -> bool { tick_ok(i as int) && t.index == i && net(t) == 0 && t.liquidity_gross.d() == 0 && t.sqrt_price.d() == tick_price(i as int)
    && t.fee_growth_outside_x.d() == (if i <= p.current_tick_index { p.fee_growth_global_x.d() } else { 0 }) && t.fee_growth_outside_y.d() == (if i <= p.current_tick_index { p.fee_growth_global_y.d() } else { 0 }) }
/// flipping one mark changes that mark only
pub proof fn l_flip(a: Tickmap, b: Tickmap, k: PoolKey, i: i32, v: bool)
    requires key_ok(k), on_grid(k, i), forall|q: PoolKey, j: int| 0 <= j < 64 * 65536 ==> #[trigger] set_at(b.bitmap.m(), q, j) == (if q == k && j == idx(i as int, k.fee_tier.tick_spacing as int) { v } else { set_at(a.bitmap.m(), q, j) })
    ensures forall|q: PoolKey, j: i32| key_ok(q) && on_grid(q, j) ==> #[trigger] tmark(b, q, j) == (if q == k && j == i { v } else { tmark(a, q, j) })
{
    assert forall|q: PoolKey, j: i32| key_ok(q) && on_grid(q, j) implies #[trigger] tmark(b, q, j) == (if q == k && j == i { v } else { tmark(a, q, j) }) by {
        let (s, z) = (q.fee_tier.tick_spacing as int, k.fee_tier.tick_spacing as int); l_idx(j as int, s); l_idx(i as int, z);
        assert(set_at(b.bitmap.m(), q, idx(j as int, s)) == (if q == k && idx(j as int, s) == idx(i as int, z) { v } else { set_at(a.bitmap.m(), q, idx(j as int, s)) }));
    }
}
//@fn src/invariant_storage.rs Invariant::create_tick -> r
    requires old(self).pools_wf()
    ensures *final(self) == *old(self), match r { Ok(t) => old(self).has_pool(pool_key) && on_grid(pool_key, index) && born(t, index, old(self).pool(pool_key)), Err(_) => !old(self).has_pool(pool_key) || !on_grid(pool_key, index) || pool_key.fee_tier.tick_spacing == 0 }
//@pre
    proof { l_pwf(self.pools, self.pool_keys, pool_key); }
//@end
//@fn src/invariant_storage.rs Invariant::get_or_create_tick -> r
    requires old(self).pools_wf()
    ensures *final(self) == *old(self), r.1 == !old(self).has_tick(pool_key, index), if r.1 { old(self).has_pool(pool_key) && on_grid(pool_key, index) && born(r.0, index, old(self).pool(pool_key)) } else { r.0 == old(self).tick(pool_key, index) }
//@end
pub open spec fn other_ticks(b: Invariant, a: Invariant) -> bool { b == (Invariant { ticks: b.ticks, tickmap: b.tickmap, ..a }) }
//@fn src/invariant_storage.rs Invariant::add_tick -> r
    requires old(self).ticks_wf(), old(self).has_pool(pool_key), old(self).pools_wf(), tick.liquidity_gross.d() > 0
    ensures match r { Ok(_) => final(self).ticks_wf() && other_ticks(*final(self), *old(self)) && !old(self).has_tick(pool_key, tick.index) && on_grid(pool_key, tick.index) && final(self).ticks.ticks.m() == old(self).ticks.ticks.m().insert((pool_key, tick.index), tick),
        Err(_) => *final(self) == *old(self) && old(self).has_tick(pool_key, tick.index) }
//@tail
    proof { reveal(pwf); reveal(twf); let (a, b) = (*old(self), *self); assert(phas(a.pools, pool_key)); l_flip(a.tickmap, b.tickmap, pool_key, tick.index, true);
        assert forall|k: PoolKey, i: i32| thas(b.ticks, k, i) == (thas(a.ticks, k, i) || (k == pool_key && i == tick.index)) by {} }
//@end
//@fn src/invariant_storage.rs Invariant::remove_tick -> r
    requires old(self).ticks_wf(), old(self).has_pool(key), old(self).pools_wf()
    ensures match r { Ok(_) => final(self).ticks_wf() && other_ticks(*final(self), *old(self)) && old(self).has_tick(key, tick.index) && tick.liquidity_gross.d() == 0 && final(self).ticks.ticks.m() == old(self).ticks.ticks.m().remove((key, tick.index)),
        Err(_) => *final(self) == *old(self) && tick.liquidity_gross.d() != 0 }
//@pre
    proof { reveal(pwf); reveal(twf); assert(phas(self.pools, key)); let g = thas(self.ticks, key, tick.index); assert(key_ok(key)); }
//@tail
    proof { reveal(pwf); reveal(twf); let (a, b) = (*old(self), *self); l_flip(a.tickmap, b.tickmap, key, tick.index, false);
        assert forall|k: PoolKey, i: i32| thas(b.ticks, k, i) == (thas(a.ticks, k, i) && !(k == key && i == tick.index)) by {} }
//@end
//@fn src/invariant_service.rs InvariantService::transfer_position -> r svc
    requires old(invariant).wf(), old(invariant).positions.len(receiver) < u32::MAX
    ensures *final(self) == *old(self), match r {
        Ok(_) => final(invariant).wf() && *final(invariant) == (Invariant { positions: final(invariant).positions, ..*old(invariant) }) && index < old(invariant).positions.len(old(self).caller()) && ({ let (a, b, u) = (old(invariant).positions, final(invariant).positions, old(self).caller());
            let (l, p) = (swap_out(a.list(u), index as int), a.list(u)[index as int]);
            (forall|w: ActorId| w != u && w != receiver ==> #[trigger] b.list(w) == a.list(w))
            && if u == receiver { b.list(u) == l.push(p) } else { b.list(u) == l && b.list(receiver) == a.list(receiver).push(p) } }),
        Err(_) => index >= old(invariant).positions.len(old(self).caller()) }
//@tail
    proof { if __tail.is_ok() { l_moved_on(*old(invariant), *invariant, old(self).caller(), index, receiver); } }
//@end
//@fn src/invariant_service.rs InvariantService::create_pool -> r svc
    requires old(invariant).wf(), old(invariant).pool_keys.pool_keys_length < u16::MAX
    ensures *final(self) == *old(self), match r {
        Ok(_) => final(invariant).wf() && *final(invariant) == (Invariant { pools: final(invariant).pools, pool_keys: final(invariant).pool_keys, ..*old(invariant) }) && token_x != token_y
            && old(invariant).fee_tiers.fee_tiers@.contains(fee_tier) && on_grid(PoolKey { token_x, token_y, fee_tier }, init_tick)
            && ({ let (a, b) = (*old(invariant), *final(invariant)); let k = new_key(token_x, token_y, fee_tier); let q = b.pool(k);
            !a.has_pool(k) && b.pool_keys.list() == a.pool_keys.list().push(k) && b.pools.pools.m() == a.pools.pools.m().insert(k, q) && q.fee_receiver == a.config.admin && q.liquidity.d() == 0 && q.current_tick_index == init_tick
            && q.sqrt_price.d() == tick_price(init_tick as int) && price_belongs(init_sqrt_price.d(), init_tick as int, fee_tier.tick_spacing as int)
            && q.fee_growth_global_x.d() == 0 && q.fee_growth_global_y.d() == 0 && q.fee_protocol_token_x.d() == 0 && q.fee_protocol_token_y.d() == 0 && q.start_timestamp == now() && q.last_timestamp == now() }),
        Err(_) => true }
//@pre
    proof { reveal(pwf); }
//@tail
    proof { reveal(twf); assert(key_ok(pool_key)); let (a, b) = (*old(invariant), *invariant); assert(pool_key == new_key(token_x, token_y, fee_tier));
        l_price_range(init_tick as int); if tick_ok(init_tick + fee_tier.tick_spacing) { l_price_mono(init_tick as int, init_tick + fee_tier.tick_spacing); }
        assert(pool_ok(pool_key, b.pool(pool_key))); assert forall|k: PoolKey| phas(b.pools, k) == (phas(a.pools, k) || k == pool_key) by {}
        assert(!phas(a.pools, pool_key)); l_sums_new_pool(a.positions.pm(), a.ticks, a.pools, b.pools, pool_key); }
//@end
pub open spec fn new_key(a: ActorId, b: ActorId, fee_tier: FeeTier) -> PoolKey { if a.key() < b.key() { PoolKey { token_x: a, token_y: b, fee_tier } } else { PoolKey { token_x: b, token_y: a, fee_tier } } }
// ---- positions
/// the tick after a change of liquidity at it; a new one starts empty, with everything below the price counted as outside
pub open spec fn tick_step(a: Invariant, k: PoolKey, i: i32, t: Tick, l: int, upper: bool, deposit: bool) -> bool {
    if a.has_tick(k, i) { tick_after_update(a.tick(k, i), t, l, upper, deposit) }
    else { t.index == i && t.liquidity_gross.d() == sgn(deposit, l) && net(t) == sgn(deposit != upper, l) && t.sqrt_price.d() == tick_price(i as int)
        && ({ let p = a.pool(k); t.fee_growth_outside_x.d() == (if i <= p.current_tick_index { p.fee_growth_global_x.d() } else { 0 }) && t.fee_growth_outside_y.d() == (if i <= p.current_tick_index { p.fee_growth_global_y.d() } else { 0 }) }) }
}
/// the pool after a change of liquidity in a range
pub open spec fn pool_step(p: Pool, q: Pool, lo: int, up: int, l: int) -> bool {
    q == (Pool { liquidity: q.liquidity, last_timestamp: now(), ..p }) && q.liquidity.d() == p.liquidity.d() + (if lo <= p.current_tick_index < up { l } else { 0 })
}
/// what opening a position does, all of it
pub open spec fn created(a: Invariant, b: Invariant, u: ActorId, k: PoolKey, lo: i32, up: i32, l: int, pos: Position) -> bool {
    let (p, q, t0, t1) = (a.pool(k), b.pool(k), b.tick(k, lo), b.tick(k, up)); let (c, pr) = (p.current_tick_index as int, p.sqrt_price.d());
    &&& a.has_pool(k) && on_grid(k, lo) && on_grid(k, up) && lo < up && l > 0
    &&& b == (Invariant { pools: b.pools, positions: b.positions, ticks: b.ticks, tickmap: b.tickmap, balances: b.balances, ..a })
    &&& b.pools.pools.m() == a.pools.pools.m().insert(k, q) && pool_step(p, q, lo as int, up as int, l)
    &&& b.ticks.ticks.m() =~= a.ticks.ticks.m().insert((k, lo), t0).insert((k, up), t1) && tick_step(a, k, lo, t0, l, false, true) && tick_step(a, k, up, t1, l, true, true)
    &&& t0.liquidity_gross.d() < max_per_tick(k.fee_tier.tick_spacing as int) && t1.liquidity_gross.d() < max_per_tick(k.fee_tier.tick_spacing as int)
    &&& b.positions.list(u) == a.positions.list(u).push(pos) && (forall|w: ActorId| w != u ==> #[trigger] b.positions.list(w) == a.positions.list(w))
    &&& pos.pool_key == k && pos.lower_tick_index == lo && pos.upper_tick_index == up && pos.liquidity.d() == l && pos.tokens_owed_x.d() == 0 && pos.tokens_owed_y.d() == 0 && pos.last_block_number == height()
    &&& pos.fee_growth_inside_x.d() == in_x(t0, t1, p) && pos.fee_growth_inside_y.d() == in_y(t0, t1, p)
    &&& pair_taken(b, a, u, k.token_x, pos_x(c, pr, l, true, up as int, lo as int), k.token_y, pos_y(c, pr, l, true, up as int, lo as int))
}
pub open spec fn pair_taken(s: Invariant, a: Invariant, who: ActorId, x: ActorId, tx: int, y: ActorId, ty: int) -> bool {
    forall|u: ActorId, t: ActorId| #[trigger] lbal(s.balances, u, t) == (if u == who && t == x { lbal(a.balances, u, t) - tx } else if u == who && t == y { lbal(a.balances, u, t) - ty } else { lbal(a.balances, u, t) })
}
//@fn src/invariant_service.rs InvariantService::create_position -> r svc
    requires old(invariant).wf(), old(invariant).positions.len(old(self).caller()) < u32::MAX
    ensures *final(self) == *old(self), match r {
        Ok(pos) => final(invariant).wf() && created(*old(invariant), *final(invariant), old(self).caller(), pool_key, lower_tick, upper_tick, liquidity_delta.d(), pos)
            && slippage_limit_lower.d() <= old(invariant).pool(pool_key).sqrt_price.d() <= slippage_limit_upper.d(),
        Err(_) => true }
//@pre
    proof { broadcast use uint_ranges; reveal(u256_val); assert(liquidity_delta.d() >= 0); }
    let ghost (li, ui) = (lower_tick, upper_tick);
//@after pool
    proof { l_twf(invariant.ticks, invariant.tickmap, invariant.pools, pool_key, li); l_twf(invariant.ticks, invariant.tickmap, invariant.pools, pool_key, ui); l_pwf(invariant.pools, invariant.pool_keys, pool_key); }
//@after position
    proof { assert(tick_here(pool_key, lower_tick.index, lower_tick)); assert(tick_here(pool_key, upper_tick.index, upper_tick)); }
//@afterstmt update 0
    proof { let a = old(invariant); l_pwf_set(a.pools, invariant.pools, a.pool_keys, pool_key); l_twf_pools(a.ticks, a.tickmap, a.pools, invariant.pools); }
//@afterstmt add_tick 0
    proof { if !should_add_lower { l_twf_set(old(invariant).ticks, invariant.ticks, invariant.tickmap, invariant.pools, pool_key, lower_tick.index); } }
    let ghost mid = *invariant;
    proof { l_twf(mid.ticks, mid.tickmap, mid.pools, pool_key, upper_tick.index); }
//@afterstmt add_tick 1
    proof { if !should_add_upper { l_twf_set(mid.ticks, invariant.ticks, invariant.tickmap, invariant.pools, pool_key, upper_tick.index); } l_created(*old(invariant), *invariant, caller, pool_key, li, ui, liquidity_delta.d(), position); }
//@end
/// a position's accrued fees at this moment
pub open spec fn due_x(a: Invariant, z: Position) -> int { z.tokens_owed_x.d() + owed(in_x(a.tick(z.pool_key, z.lower_tick_index), a.tick(z.pool_key, z.upper_tick_index), a.pool(z.pool_key)), z.fee_growth_inside_x.d(), z.liquidity.d()) }
pub open spec fn due_y(a: Invariant, z: Position) -> int { z.tokens_owed_y.d() + owed(in_y(a.tick(z.pool_key, z.lower_tick_index), a.tick(z.pool_key, z.upper_tick_index), a.pool(z.pool_key)), z.fee_growth_inside_y.d(), z.liquidity.d()) }
pub open spec fn same_range(z: Position, w: Position) -> bool { w == (Position { liquidity: w.liquidity, fee_growth_inside_x: w.fee_growth_inside_x, fee_growth_inside_y: w.fee_growth_inside_y, tokens_owed_x: w.tokens_owed_x, tokens_owed_y: w.tokens_owed_y, ..z }) && w.liquidity.d() == z.liquidity.d() }
/// the owner gets what has accrued, once, and nothing else changes
pub open spec fn claimed(a: Invariant, b: Invariant, u: ActorId, n: int, x: int, y: int) -> bool {
    let z = a.positions.list(u)[n]; let w = b.positions.list(u)[n]; let k = z.pool_key; let (lo, up) = (z.lower_tick_index, z.upper_tick_index);
    &&& n < a.positions.len(u) && a.has_pool(k) && a.has_tick(k, lo) && a.has_tick(k, up)
    &&& b == (Invariant { pools: b.pools, positions: b.positions, ticks: b.ticks, balances: b.balances, ..a })
    &&& b.pools.pools.m() == a.pools.pools.m().insert(k, b.pool(k)) && pool_step(a.pool(k), b.pool(k), 0, 0, 0)
    &&& b.ticks.ticks.m() =~= a.ticks.ticks.m().insert((k, lo), b.tick(k, lo)).insert((k, up), b.tick(k, up)) && tick_after_update(a.tick(k, lo), b.tick(k, lo), 0, false, true) && tick_after_update(a.tick(k, up), b.tick(k, up), 0, true, true)
    &&& b.positions.list(u) == a.positions.list(u).update(n, w) && (forall|v: ActorId| v != u ==> #[trigger] b.positions.list(v) == a.positions.list(v))
    &&& same_range(z, w) && w.tokens_owed_x.d() == 0 && w.tokens_owed_y.d() == 0 && w.fee_growth_inside_x.d() == in_x(a.tick(k, lo), a.tick(k, up), a.pool(k)) && w.fee_growth_inside_y.d() == in_y(a.tick(k, lo), a.tick(k, up), a.pool(k))
    &&& x == due_x(a, z) && y == due_y(a, z) && pair_given(b, a, u, k.token_x, x, k.token_y, y)
}
//@fn src/invariant_service.rs InvariantService::claim_fee -> r svc
    requires old(invariant).wf()
    ensures *final(self) == *old(self), match r { Ok((x, y)) => final(invariant).wf() && claimed(*old(invariant), *final(invariant), old(self).caller(), index as int, x.d(), y.d()), Err(_) => true }
//@after position
    let ghost z = position;
    proof { assert(old(invariant).positions.positions.m().dom().contains((caller, index))); l_sums_pos(old(invariant).positions.positions.m(), old(invariant).ticks, old(invariant).pools, (caller, index)); assert(z == old(invariant).positions.list(caller)[index as int]);
        let a = old(invariant); l_pwf(a.pools, a.pool_keys, z.pool_key); l_twf(a.ticks, a.tickmap, a.pools, z.pool_key, z.lower_tick_index); l_twf(a.ticks, a.tickmap, a.pools, z.pool_key, z.upper_tick_index); }
//@afterstmt update 1
    proof { let a = old(invariant); l_pwf_set(a.pools, invariant.pools, a.pool_keys, z.pool_key); l_twf_pools(a.ticks, a.tickmap, a.pools, invariant.pools); }
    let ghost mid = *invariant;
//@afterstmt update 2
    proof { l_twf_set(mid.ticks, invariant.ticks, mid.tickmap, mid.pools, z.pool_key, z.upper_tick_index); }
    let ghost mid2 = *invariant;
//@afterstmt update 3
    proof { l_twf_set(mid2.ticks, invariant.ticks, mid.tickmap, mid.pools, z.pool_key, z.lower_tick_index); }
//@tail
    proof { assert(invariant.positions.list(caller) =~= old(invariant).positions.list(caller).update(index as int, invariant.positions.list(caller)[index as int])); l_claimed(*old(invariant), *invariant, caller, index as int, x.d(), y.d()); }
//@end
/// the tick is dropped exactly when nothing ends at it any more
pub open spec fn tick_left(a: Invariant, b: Invariant, k: PoolKey, i: i32, l: int, upper: bool) -> bool {
    if a.tick(k, i).liquidity_gross.d() == l { !b.has_tick(k, i) } else { b.has_tick(k, i) && tick_after_update(a.tick(k, i), b.tick(k, i), l, upper, false) }
}
/// what closing a position does, all of it: x and y are the amounts for the liquidity plus the accrued fees
pub open spec fn removed(a: Invariant, b: Invariant, u: ActorId, n: int, x: int, y: int) -> bool {
    let z = a.positions.list(u)[n]; let k = z.pool_key; let (lo, up) = (z.lower_tick_index, z.upper_tick_index); let (p, q) = (a.pool(k), b.pool(k)); let (c, pr, l) = (p.current_tick_index as int, p.sqrt_price.d(), z.liquidity.d());
    &&& n < a.positions.len(u) && a.has_pool(k) && a.has_tick(k, lo) && a.has_tick(k, up)
    &&& b == (Invariant { pools: b.pools, positions: b.positions, ticks: b.ticks, tickmap: b.tickmap, balances: b.balances, ..a })
    &&& b.pools.pools.m() == a.pools.pools.m().insert(k, q) && pool_step(p, q, lo as int, up as int, -l)
    &&& tick_left(a, b, k, lo, l, false) && tick_left(a, b, k, up, l, true)
    &&& forall|j: PoolKey, i: i32| !(j == k && (i == lo || i == up)) ==> #[trigger] thas(b.ticks, j, i) == thas(a.ticks, j, i) && b.tick(j, i) == a.tick(j, i)
    &&& b.positions.list(u) == swap_out(a.positions.list(u), n) && (forall|v: ActorId| v != u ==> #[trigger] b.positions.list(v) == a.positions.list(v))
    &&& x == pos_x(c, pr, l, false, up as int, lo as int) + due_x(a, z) && y == pos_y(c, pr, l, false, up as int, lo as int) + due_y(a, z)
    &&& pair_given(b, a, u, k.token_x, x, k.token_y, y)
}
//@fn src/invariant_service.rs InvariantService::remove_position -> r svc
    requires old(invariant).wf()
    ensures *final(self) == *old(self), match r { Ok((x, y)) => final(invariant).wf() && removed(*old(invariant), *final(invariant), old(self).caller(), index as int, x.d(), y.d()), Err(_) => true }
//@after position
    let ghost z = position;
    proof { assert(old(invariant).positions.positions.m().dom().contains((caller, index))); l_sums_pos(old(invariant).positions.positions.m(), old(invariant).ticks, old(invariant).pools, (caller, index)); assert(z == old(invariant).positions.list(caller)[index as int]);
        let a = old(invariant); l_pwf(a.pools, a.pool_keys, z.pool_key); l_twf(a.ticks, a.tickmap, a.pools, z.pool_key, z.lower_tick_index); l_twf(a.ticks, a.tickmap, a.pools, z.pool_key, z.upper_tick_index); }
//@afterstmt update 0
    proof { let a = old(invariant); l_pwf_set(a.pools, invariant.pools, a.pool_keys, z.pool_key); l_twf_pools(a.ticks, a.tickmap, a.pools, invariant.pools); }
    let ghost mid = *invariant;
//@afterstmt remove_tick 0
    proof { broadcast use uint_ranges; reveal(u256_val); assert(lower_tick.liquidity_gross.d() >= 0); if !remove_lower_tick { l_twf_set(mid.ticks, invariant.ticks, mid.tickmap, mid.pools, z.pool_key, z.lower_tick_index); } }
    let ghost mid2 = *invariant;
//@afterstmt remove_tick 1
    proof { broadcast use uint_ranges; reveal(u256_val); assert(upper_tick.liquidity_gross.d() >= 0); if !remove_upper_tick { l_twf_set(mid2.ticks, invariant.ticks, mid2.tickmap, mid2.pools, z.pool_key, z.upper_tick_index); } }
//@tail
    proof { l_removed(*old(invariant), *invariant, caller, index, amount_x.d(), amount_y.d()); }
//@end
