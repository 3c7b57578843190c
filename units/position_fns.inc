pub open spec fn owed(inside: int, last: int, l: int) -> int { fee_share(wsub(inside, last), l) }
pub open spec fn in_x(lo: Tick, up: Tick, p: Pool) -> int { growth_inside(lo.index as int, lo.fee_growth_outside_x.d(), up.index as int, up.fee_growth_outside_x.d(), p.current_tick_index as int, p.fee_growth_global_x.d()) }
pub open spec fn in_y(lo: Tick, up: Tick, p: Pool) -> int { growth_inside(lo.index as int, lo.fee_growth_outside_y.d(), up.index as int, up.fee_growth_outside_y.d(), p.current_tick_index as int, p.fee_growth_global_y.d()) }
/// what any change of a position does to the position itself
pub open spec fn pos_after(a: Position, b: Position, add: bool, l: int, ix: int, iy: int) -> bool {
    b == (Position { liquidity: b.liquidity, fee_growth_inside_x: b.fee_growth_inside_x, fee_growth_inside_y: b.fee_growth_inside_y, tokens_owed_x: b.tokens_owed_x, tokens_owed_y: b.tokens_owed_y, ..a })
    && b.liquidity.d() == a.liquidity.d() + sgn(add, l) && b.fee_growth_inside_x.d() == ix && b.fee_growth_inside_y.d() == iy
    && b.tokens_owed_x.d() == a.tokens_owed_x.d() + owed(ix, a.fee_growth_inside_x.d(), a.liquidity.d()) && b.tokens_owed_y.d() == a.tokens_owed_y.d() + owed(iy, a.fee_growth_inside_y.d(), a.liquidity.d())
}
//@fn src/contracts/storage/position.rs Position::calculate_new_liquidity -> r
    ensures *final(self) == *old(self), match r { Ok(n) => n.d() == old(self).liquidity.d() + sgn(sign, liquidity_delta.d()), Err(_) => old(self).liquidity.d() + sgn(sign, liquidity_delta.d()) < 0 || old(self).liquidity.d() + sgn(sign, liquidity_delta.d()) > U256::umax() }
//@end
//@fn src/contracts/storage/position.rs Position::update -> r
    ensures r.is_ok() ==> pos_after(*old(self), *final(self), sign, liquidity_delta.d(), fee_growth_inside_x.d(), fee_growth_inside_y.d()) && (liquidity_delta.d() != 0 || old(self).liquidity.d() != 0)
//@end
/// what any change of a position does to pool and ticks, and what it moves
pub open spec fn moved(p: Pool, q: Pool, lo: Tick, lo2: Tick, up: Tick, up2: Tick, l: int, add: bool, now: u64, s: int, x: int, y: int) -> bool {
    let c = p.current_tick_index as int;
    tick_after_update(lo, lo2, l, false, add) && tick_after_update(up, up2, l, true, add)
    && (add ==> lo2.liquidity_gross.d() < max_per_tick(s) && up2.liquidity_gross.d() < max_per_tick(s))
    && q == (Pool { liquidity: q.liquidity, last_timestamp: now, ..p })
    && q.liquidity.d() == p.liquidity.d() + (if lo.index <= c < up.index { sgn(add, l) } else { 0 })
    && x == pos_x(c, p.sqrt_price.d(), l, add, up.index as int, lo.index as int) && y == pos_y(c, p.sqrt_price.d(), l, add, up.index as int, lo.index as int)
    && tick_ok(lo.index as int) && tick_ok(up.index as int) && lo.index <= up.index
}
pub open spec fn all_after(a: Position, b: Position, p: Pool, q: Pool, lo: Tick, lo2: Tick, up: Tick, up2: Tick, l: int, add: bool, now: u64, s: int, x: int, y: int) -> bool {
    pos_after(a, b, add, l, in_x(lo, up, p), in_y(lo, up, p)) && moved(p, q, lo, lo2, up, up2, l, add, now, s, x, y) && (l != 0 || a.liquidity.d() != 0)
}
//@fn src/contracts/storage/position.rs Position::modify -> r
    ensures r.is_ok() ==> all_after(*old(self), *final(self), *old(pool), *final(pool), *old(lower_tick), *final(lower_tick), *old(upper_tick), *final(upper_tick), liquidity_delta.d(), add, current_timestamp, tick_spacing as int, r->Ok_0.0.d(), r->Ok_0.1.d())
//@end
//@fn src/contracts/storage/position.rs Position::claim_fee -> r
    ensures ({ let (a, b, p, lo, up) = (*old(self), *final(self), *old(pool), *old(lower_tick), *old(upper_tick));
        r.0.d() == a.tokens_owed_x.d() + owed(in_x(lo, up, p), a.fee_growth_inside_x.d(), a.liquidity.d()) && r.1.d() == a.tokens_owed_y.d() + owed(in_y(lo, up, p), a.fee_growth_inside_y.d(), a.liquidity.d())
        && b.tokens_owed_x.d() == 0 && b.tokens_owed_y.d() == 0 && b.fee_growth_inside_x.d() == in_x(lo, up, p) && b.fee_growth_inside_y.d() == in_y(lo, up, p)
        && b.liquidity.d() == a.liquidity.d() && a.liquidity.d() != 0 && b == (Position { liquidity: b.liquidity, fee_growth_inside_x: b.fee_growth_inside_x, fee_growth_inside_y: b.fee_growth_inside_y, tokens_owed_x: b.tokens_owed_x, tokens_owed_y: b.tokens_owed_y, ..a })
        && tick_after_update(lo, *final(lower_tick), 0, false, true) && tick_after_update(up, *final(upper_tick), 0, true, true)
        && *final(pool) == (Pool { liquidity: final(pool).liquidity, last_timestamp: current_timestamp, ..p }) && final(pool).liquidity.d() == p.liquidity.d() })
//@end
//@fn src/contracts/storage/position.rs Position::create -> r
    ensures match r { Ok((b, x, y)) => ({ let (p, lo, up) = (*old(pool), *old(lower_tick), *old(upper_tick));
        slippage_limit_lower.d() <= p.sqrt_price.d() <= slippage_limit_upper.d()
        && b.pool_key == pool_key && b.lower_tick_index == lo.index && b.upper_tick_index == up.index && b.last_block_number == block_number && b.liquidity.d() == liquidity_delta.d() && liquidity_delta.d() != 0
        && b.tokens_owed_x.d() == 0 && b.tokens_owed_y.d() == 0 && b.fee_growth_inside_x.d() == in_x(lo, up, p) && b.fee_growth_inside_y.d() == in_y(lo, up, p)
        && moved(p, *final(pool), lo, *final(lower_tick), up, *final(upper_tick), liquidity_delta.d(), true, current_timestamp, tick_spacing as int, x.d(), y.d()) }),
        Err(_) => !(slippage_limit_lower.d() <= old(pool).sqrt_price.d() <= slippage_limit_upper.d()) && *final(pool) == *old(pool) && *final(lower_tick) == *old(lower_tick) && *final(upper_tick) == *old(upper_tick) }
//@pre
    proof { assert forall|g: int| #[trigger] fee_share(g, 0) == 0 by { reveal(fee_share); } }
//@end
//@fn src/contracts/storage/position.rs Position::remove -> r
    ensures ({ let (a, b, p, lo, up) = (*old(self), *final(self), *old(pool), *old(lower_tick), *old(upper_tick));
        let (dx0, dy0) = (r.0.d() - b.tokens_owed_x.d(), r.1.d() - b.tokens_owed_y.d());
        all_after(a, b, p, *final(pool), lo, *final(lower_tick), up, *final(upper_tick), a.liquidity.d(), false, current_timestamp, tick_spacing as int, dx0, dy0)
        && b.liquidity.d() == 0 && r.2 == (final(lower_tick).liquidity_gross.d() == 0) && r.3 == (final(upper_tick).liquidity_gross.d() == 0) })
//@end
