/// liquidity that becomes active when the price rises over the tick
pub open spec fn net(t: Tick) -> int { if t.sign { t.liquidity_change.d() } else { -t.liquidity_change.d() } }
pub open spec fn tick_after_cross(a: Tick, b: Tick, p: Pool, now: int) -> bool {
    b.index == a.index && b.sign == a.sign && b.liquidity_change == a.liquidity_change && b.liquidity_gross == a.liquidity_gross && b.sqrt_price == a.sqrt_price
    && b.fee_growth_outside_x.d() == wsub(p.fee_growth_global_x.d(), a.fee_growth_outside_x.d()) && b.fee_growth_outside_y.d() == wsub(p.fee_growth_global_y.d(), a.fee_growth_outside_y.d())
    && b.seconds_outside as int == (now - p.start_timestamp - a.seconds_outside) % 18446744073709551616int
}
pub open spec fn cross_net(t: Tick, cur: int) -> int { if cur >= t.index { -net(t) } else { net(t) } }
pub open spec fn pool_after_cross(p: Pool, q: Pool, t: Tick, now: u64) -> bool {
    q == (Pool { last_timestamp: now, liquidity: q.liquidity, ..p }) && q.liquidity.d() == p.liquidity.d() + cross_net(t, p.current_tick_index as int)
}
//@fn src/contracts/storage/tick.rs Tick::Default::default -> r
    ensures r.index == 0, !r.sign, r.liquidity_change.d() == 0, r.liquidity_gross.d() == 0, r.fee_growth_outside_x.d() == 0, r.fee_growth_outside_y.d() == 0, r.seconds_outside == 0
//@end
//@fn src/contracts/storage/tick.rs Tick::create -> r
    requires current_timestamp >= pool.start_timestamp
    ensures tick_ok(index as int), r.index == index, r.sign, r.liquidity_change.d() == 0, r.liquidity_gross.d() == 0, r.sqrt_price.d() == tick_price(index as int),
        r.fee_growth_outside_x.d() == (if index <= pool.current_tick_index { pool.fee_growth_global_x.d() } else { 0 }),
        r.fee_growth_outside_y.d() == (if index <= pool.current_tick_index { pool.fee_growth_global_y.d() } else { 0 })
//@end
//@fn src/contracts/storage/tick.rs Tick::cross -> r
    ensures match r { Ok(_) => tick_after_cross(*old(self), *final(self), *old(pool), current_timestamp as int) && pool_after_cross(*old(pool), *final(pool), *old(self), current_timestamp) && current_timestamp >= old(pool).start_timestamp,
        Err(_) => current_timestamp < old(pool).start_timestamp || old(pool).liquidity.d() + cross_net(*old(self), old(pool).current_tick_index as int) < 0 || old(pool).liquidity.d() + cross_net(*old(self), old(pool).current_tick_index as int) > U256::umax() }
//@end
//@fn src/contracts/storage/tick.rs Tick::update_liquidity_change
    ensures *final(self) == (Tick { liquidity_change: final(self).liquidity_change, sign: final(self).sign, ..*old(self) }), net(*final(self)) == net(*old(self)) + (if add { liquidity_delta.d() } else { -liquidity_delta.d() })
//@end
//@fn src/contracts/storage/tick.rs Tick::calculate_new_liquidity_gross -> r
    ensures match r { Ok(l) => l.d() == self.liquidity_gross.d() + (if sign { liquidity_delta.d() } else { -liquidity_delta.d() }) && (sign ==> l.d() < max_liquidity_per_tick.d()),
        Err(_) => if sign { self.liquidity_gross.d() + liquidity_delta.d() >= max_liquidity_per_tick.d() || self.liquidity_gross.d() + liquidity_delta.d() > U256::umax() } else { self.liquidity_gross.d() < liquidity_delta.d() } }
//@end
pub open spec fn sgn(b: bool, v: int) -> int { if b { v } else { -v } }
pub open spec fn tick_after_update(a: Tick, b: Tick, l: int, upper: bool, deposit: bool) -> bool {
    b == (Tick { liquidity_change: b.liquidity_change, sign: b.sign, liquidity_gross: b.liquidity_gross, ..a })
    && b.liquidity_gross.d() == a.liquidity_gross.d() + sgn(deposit, l) && net(b) == net(a) + sgn(deposit != upper, l)
}
//@fn src/contracts/storage/tick.rs Tick::update -> r
    ensures match r { Ok(_) => tick_after_update(*old(self), *final(self), liquidity_delta.d(), is_upper, is_deposit) && (is_deposit ==> final(self).liquidity_gross.d() < max_liquidity_per_tick.d()),
        Err(_) => if is_deposit { old(self).liquidity_gross.d() + liquidity_delta.d() >= max_liquidity_per_tick.d() || old(self).liquidity_gross.d() + liquidity_delta.d() > U256::umax() } else { old(self).liquidity_gross.d() < liquidity_delta.d() } }
//@end
/// crossing a tick up and then down (or the other way round) restores the pool's liquidity and the tick's outside counters
pub proof fn l_cross_twice(a: Tick, b: Tick, c: Tick, p: Pool, q: Pool, q2: Pool, r: Pool, now: u64)
    requires tick_after_cross(a, b, p, now as int), pool_after_cross(p, q, a, now), tick_after_cross(b, c, q2, now as int), pool_after_cross(q2, r, b, now),
        q2 == (Pool { current_tick_index: q2.current_tick_index, ..q }), (p.current_tick_index >= a.index) != (q2.current_tick_index >= a.index)
    ensures r.liquidity.d() == p.liquidity.d(), c.fee_growth_outside_x.d() == a.fee_growth_outside_x.d(), c.fee_growth_outside_y.d() == a.fee_growth_outside_y.d(), c.seconds_outside == a.seconds_outside
{
    reveal(wsub); broadcast use uint_ranges;
    l_sub_sub(p.fee_growth_global_x.d(), a.fee_growth_outside_x.d(), W128); l_sub_sub(p.fee_growth_global_y.d(), a.fee_growth_outside_y.d(), W128);
    l_sub_sub(now - p.start_timestamp, a.seconds_outside as int, 18446744073709551616int);
}
pub proof fn l_sub_sub(g: int, x: int, m: int) requires m > 0, 0 <= x < m ensures (g - (g - x) % m) % m == x {
    let y = (g - x) % m; let k = (g - x) / m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(g - x, m);
    assert(g - y == m * k + x);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(g - y, m, k, x);
}
