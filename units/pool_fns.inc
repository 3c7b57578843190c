pub open spec fn pshare(a: int, f: int) -> int { (a * f + (E12 - 1)) / E12 }
/// booking a fee: protocol share rounded up, the rest spread over the active liquidity; nothing else moves
pub open spec fn fee_booked(p: Pool, q: Pool, a: int, in_x: bool, f: int) -> bool {
    if a == 0 || p.liquidity.d() == 0 { q == p }
    else if in_x { q == (Pool { fee_growth_global_x: q.fee_growth_global_x, fee_protocol_token_x: q.fee_protocol_token_x, ..p })
        && q.fee_growth_global_x.d() == wadd(p.fee_growth_global_x.d(), fee_growth(p.liquidity.d(), a - pshare(a, f))) && q.fee_protocol_token_x.d() == p.fee_protocol_token_x.d() + pshare(a, f) }
    else { q == (Pool { fee_growth_global_y: q.fee_growth_global_y, fee_protocol_token_y: q.fee_protocol_token_y, ..p })
        && q.fee_growth_global_y.d() == wadd(p.fee_growth_global_y.d(), fee_growth(p.liquidity.d(), a - pshare(a, f))) && q.fee_protocol_token_y.d() == p.fee_protocol_token_y.d() + pshare(a, f) }
}
pub open spec fn fee_err(p: Pool, a: int, f: int) -> bool { let rest = a - pshare(a, f); p.liquidity.d() == 0 || rest * E28 * 100000 > U384::umax() || fee_growth(p.liquidity.d(), rest) > u128::MAX }
//@fn src/contracts/storage/pool.rs Pool::Default::default -> r
    ensures r.liquidity.d() == 0, r.fee_growth_global_x.d() == 0, r.fee_growth_global_y.d() == 0, r.fee_protocol_token_x.d() == 0, r.fee_protocol_token_y.d() == 0
//@end
//@fn src/contracts/storage/pool.rs Pool::create -> r
    ensures r.is_ok() ==> ({ let q = r->Ok_0; q.liquidity.d() == 0 && q.sqrt_price.d() == tick_price(init_tick as int) && q.current_tick_index == init_tick && tick_ok(init_tick as int) && price_belongs(init_sqrt_price.d(), init_tick as int, tick_spacing as int)
        && q.fee_growth_global_x.d() == 0 && q.fee_growth_global_y.d() == 0 && q.fee_protocol_token_x.d() == 0 && q.fee_protocol_token_y.d() == 0 && q.start_timestamp == current_timestamp && q.last_timestamp == current_timestamp && q.fee_receiver == fee_receiver }),
        r.is_err() ==> !tick_ok(init_tick as int) || !price_belongs(init_sqrt_price.d(), init_tick as int, tick_spacing as int)
//@end
//@fn src/contracts/storage/pool.rs Pool::add_fee -> r
    ensures match r { Ok(_) => protocol_fee.d() * amount.d() <= amount.d() * E12 && fee_booked(*old(self), *final(self), amount.d(), in_x, protocol_fee.d()) && final(self).current_tick_index == old(self).current_tick_index, Err(_) => fee_err(*old(self), amount.d(), protocol_fee.d()) && *final(self) == *old(self) }
//@pre
 proof { broadcast use uint_ranges; reveal(fee_booked); reveal(pshare); l_pshare(amount.d(), protocol_fee.d()); }
//@end
pub proof fn l_pshare(a: int, f: int) requires a >= 0, f >= 0 ensures 0 <= pshare(a, f), a * f <= pshare(a, f) * E12 < a * f + E12, a == 0 ==> pshare(a, f) == 0, pshare(a, f) <= a ==> f * a <= a * E12 { reveal(pshare);
    assert(a * f >= 0 && a * f == f * a) by (nonlinear_arith) requires a >= 0, f >= 0; l_fdiv(a * f + (E12 - 1), E12); if a == 0 { assert(a * f == 0); }
}
/// nothing is lost but the rounding of the spread, and nothing is paid twice: the parts never exceed the whole
pub proof fn l_fee_parts(p: Pool, q: Pool, a: int, in_x: bool, f: int)
    requires fee_booked(p, q, a, in_x, f), a > 0, p.liquidity.d() > 0, 0 <= f <= E12
    ensures ({ let s = pshare(a, f); let g = fee_growth(p.liquidity.d(), a - s); 0 <= s <= a && a * f <= s * E12 && g * p.liquidity.d() <= (a - s) * E28 * 100000 < (g + 1) * p.liquidity.d() })
{
    reveal(fee_booked); reveal(fee_growth); l_pshare(a, f); let s = pshare(a, f);
    assert(s <= a) by (nonlinear_arith) requires s * E12 < a * f + E12, f <= E12, a > 0, E12 == 1000000000000;
    assert((a - s) * E28 * 100000 >= 0) by (nonlinear_arith) requires a >= s, E28 == 10000000000000000000000000000;
    l_fdiv((a - s) * E28 * 100000, p.liquidity.d());
    let g = fee_growth(p.liquidity.d(), a - s); let l = p.liquidity.d();
    assert((g + 1) * l == g * l + l) by (nonlinear_arith);
}
//@fn src/contracts/storage/pool.rs Pool::update_liquidity -> r
    ensures match r { Ok((x, y)) => ({ let (c, p, l) = (old(self).current_tick_index as int, old(self).sqrt_price.d(), liquidity_delta.d());
            x.d() == pos_x(c, p, l, liquidity_sign, upper_tick as int, lower_tick as int) && y.d() == pos_y(c, p, l, liquidity_sign, upper_tick as int, lower_tick as int) && lower_tick <= upper_tick
            && tick_ok(upper_tick as int) && tick_ok(lower_tick as int)
            && *final(self) == (Pool { liquidity: final(self).liquidity, ..*old(self) })
            && final(self).liquidity.d() == old(self).liquidity.d() + (if lower_tick <= c < upper_tick { sgn(liquidity_sign, l) } else { 0 }) }),
        Err(_) => pos_err(old(self).current_tick_index as int, old(self).sqrt_price.d(), liquidity_delta.d(), liquidity_sign, upper_tick as int, lower_tick as int)
            || old(self).liquidity.d() + sgn(liquidity_sign, liquidity_delta.d()) < 0 || old(self).liquidity.d() + sgn(liquidity_sign, liquidity_delta.d()) > U256::umax() }
//@end
//@fn src/contracts/storage/pool.rs Pool::withdraw_protocol_fee -> r
    ensures r.0 == old(self).fee_protocol_token_x, r.1 == old(self).fee_protocol_token_y, final(self).fee_protocol_token_x.d() == 0, final(self).fee_protocol_token_y.d() == 0,
        *final(self) == (Pool { fee_protocol_token_x: final(self).fee_protocol_token_x, fee_protocol_token_y: final(self).fee_protocol_token_y, ..*old(self) })
//@end
//@enum src/contracts/storage/pool.rs UpdatePoolTick
impl PartialEq for UpdatePoolTick { #[verifier::external_body] fn eq(&self, o: &UpdatePoolTick) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for UpdatePoolTick { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &UpdatePoolTick) -> bool { *self == *o } }
pub open spec fn enough(p: Pool, n: int, a: int, f: int, by_in: bool, xy: bool) -> bool { if p.liquidity.d() == 0 { true } else { step_price(n, p.liquidity.d(), a, f, by_in, xy) != n } }
/// the tick a swap stopped at: crossed, or the rest of the input turned into a fee
pub open spec fn tick_done(p: Pool, q: Pool, t: UpdatePoolTick, u: UpdatePoolTick, n: int, rem: int, by_in: bool, xy: bool, now: u64, pf: int, ft: FeeTier, r: (int, int, bool)) -> bool {
    let e = enough(p, n, rem, ft.fee.d(), by_in, xy);
    match t {
        UpdatePoolTick::TickInitialized(a) => u is TickInitialized && ({ let b = u->TickInitialized_0;
            let idx = if xy && e { a.index - ft.tick_spacing } else { a.index as int };
            q.current_tick_index == idx && ({ let q0 = Pool { current_tick_index: p.current_tick_index, ..q };
                if !xy || e { tick_after_cross(a, b, p, now as int) && pool_after_cross(p, q0, a, now) && r == (0int, rem, true) }
                else if rem == 0 { q0 == p && b == a && r == (0int, 0int, false) }
                else if by_in { fee_booked(p, q0, rem, xy, pf) && pf * rem <= rem * E12 && b == a && r == (rem, 0int, false) }
                else { q0 == p && b == a && r == (0int, 0int, false) } }) }),
        UpdatePoolTick::TickUninitialized(i) => u == t && q == (Pool { current_tick_index: q.current_tick_index, ..p }) && q.current_tick_index == (if xy && e { i - ft.tick_spacing } else { i as int }) && r == (0int, rem, false),
        _ => false,
    }
}
pub open spec fn upd_ok(t: UpdatePoolTick) -> bool { match t { UpdatePoolTick::TickInitialized(a) => tick_ok(a.index as int), UpdatePoolTick::TickUninitialized(i) => tick_ok(i as int), _ => true } }
/// going down, a step that ends where it began must not undo the crossing before it
pub open spec fn stop_tick(cur: int, t: int, xy: bool) -> int { if xy && cur < t { cur } else { t } }
//@fn src/contracts/storage/pool.rs Pool::update_tick -> r
    requires upd_ok(*old(tick))
    ensures
        *old(tick) == UpdatePoolTick::NoTick || swap_limit.d() != result.next_sqrt_price.d() ==>
            *final(tick) == *old(tick) && in_range(result.next_sqrt_price.d()) && !sel_err(result.next_sqrt_price.d(), fee_tier.tick_spacing as int) && final(self).current_tick_index as int == stop_tick(old(self).current_tick_index as int, falign(sel(result.next_sqrt_price.d()), fee_tier.tick_spacing as int), x_to_y)
            && *final(self) == (Pool { current_tick_index: final(self).current_tick_index, ..*old(self) }) && r.0.d() == 0 && r.1 == remaining_amount && !r.2,
        !(*old(tick) == UpdatePoolTick::NoTick || swap_limit.d() != result.next_sqrt_price.d()) ==>
            tick_done(*old(self), *final(self), *old(tick), *final(tick), result.next_sqrt_price.d(), remaining_amount.d(), by_amount_in, x_to_y, current_timestamp, protocol_fee.d(), fee_tier, (r.0.d(), r.1.d(), r.2)),
        !(*old(tick) == UpdatePoolTick::NoTick || swap_limit.d() != result.next_sqrt_price.d()) ==> !step_price_err(result.next_sqrt_price.d(), old(self).liquidity.d(), remaining_amount.d(), fee_tier.fee.d(), by_amount_in, x_to_y)
//@end
