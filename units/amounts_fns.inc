/// what a liquidity change over [lower, upper) costs or releases, per token, when the pool stands at tick cur and price p
pub open spec fn pos_x(cur: int, p: int, l: int, up: bool, upper: int, lower: int) -> int {
    if cur < lower { dx(tick_price(lower), tick_price(upper), l, up) } else if cur < upper { dx(p, tick_price(upper), l, up) } else { 0 }
}
pub open spec fn pos_y(cur: int, p: int, l: int, up: bool, upper: int, lower: int) -> int {
    if cur < lower { 0 } else if cur < upper { dy(tick_price(lower), p, l, up) } else { dy(tick_price(lower), tick_price(upper), l, up) }
}
pub open spec fn pos_err(cur: int, p: int, l: int, up: bool, upper: int, lower: int) -> bool {
    upper < lower || !tick_ok(lower) || !tick_ok(upper)
    || (if cur < lower { dx_err(tick_price(lower), tick_price(upper), l, up) } else if cur < upper { dx_err(p, tick_price(upper), l, up) || dy_err(tick_price(lower), p, l, up) } else { dy_err(tick_price(lower), tick_price(upper), l, up) })
}
//@fn calc/math/clamm.rs calculate_amount_delta -> r
    ensures match r { Ok((x, y, u)) => upper_tick >= lower_tick && tick_ok(upper_tick as int) && (lower_tick <= current_tick_index ==> tick_ok(lower_tick as int)) && (current_tick_index < lower_tick ==> tick_ok(lower_tick as int))
            && x.d() == pos_x(current_tick_index as int, current_sqrt_price.d(), liquidity_delta.d(), liquidity_sign, upper_tick as int, lower_tick as int)
            && y.d() == pos_y(current_tick_index as int, current_sqrt_price.d(), liquidity_delta.d(), liquidity_sign, upper_tick as int, lower_tick as int)
            && u == (lower_tick <= current_tick_index < upper_tick),
        Err(_) => true }, r.is_err() <==> pos_err(current_tick_index as int, current_sqrt_price.d(), liquidity_delta.d(), liquidity_sign, upper_tick as int, lower_tick as int)
//@pre
    hide(dx); hide(dy); hide(dx_err); hide(dy_err); hide(tick_price);
//@end
pub open spec fn step_price(p: int, l: int, a: int, f: int, by_in: bool, xy: bool) -> int { if by_in { next_in(p, l, after_fee(a, f), xy) } else { next_out(p, l, a, xy) } }
/// the contract cannot tell the price the swap would move to
pub open spec fn step_price_err(p: int, l: int, a: int, f: int, by_in: bool, xy: bool) -> bool { l != 0 && (if by_in { next_in_err(p, l, after_fee(a, f), xy) } else { next_out_err(p, l, a, xy) }) }
//@fn calc/math/clamm.rs is_enough_amount_to_change_price -> r
//@if sdk
    ensures liquidity.d() != 0 && by_amount_in ==> fee.d() <= E12,
        !step_price_err(starting_sqrt_price.d(), liquidity.d(), amount.d(), fee.d(), by_amount_in, x_to_y) ==> r.is_ok() && r->Ok_0 == (if liquidity.d() == 0 { true } else { step_price(starting_sqrt_price.d(), liquidity.d(), amount.d(), fee.d(), by_amount_in, x_to_y) != starting_sqrt_price.d() })
//@else
    ensures match r { Ok(e) => if liquidity.d() == 0 { e } else { e == (step_price(starting_sqrt_price.d(), liquidity.d(), amount.d(), fee.d(), by_amount_in, x_to_y) != starting_sqrt_price.d()) && (by_amount_in ==> fee.d() <= E12) }, Err(_) => liquidity.d() != 0 },
        r.is_err() <==> step_price_err(starting_sqrt_price.d(), liquidity.d(), amount.d(), fee.d(), by_amount_in, x_to_y)
//@fi
//@pre
    hide(next_in); hide(next_out); hide(next_in_err); hide(next_out_err);
//@end
pub open spec fn max_per_tick(s: int) -> int { U256::umax() / ((2 * MAX_TICK + 1) / s) }
//@fn calc/math/clamm.rs calculate_max_liquidity_per_tick -> r divrem
    ensures tick_spacing != 0, r.d() == max_per_tick(tick_spacing as int)
//@end
pub open spec fn min_out(expected: int, slippage: int) -> int { cdiv(expected * (E12 - slippage), E12) }
//@fn calc/math/clamm.rs calculate_min_amount_out -> r
    ensures slippage.d() <= E12, r.d() == min_out(expected_amount_out.d(), slippage.d())
//@end
/// what closing a range releases never exceeds what opening it cost, token by token
pub proof fn l_round_trip(cur: int, p: int, l: int, upper: int, lower: int)
    requires tick_ok(lower), tick_ok(upper), l >= 0, p >= E12
    ensures pos_x(cur, p, l, false, upper, lower) <= pos_x(cur, p, l, true, upper, lower), pos_y(cur, p, l, false, upper, lower) <= pos_y(cur, p, l, true, upper, lower)
{
    l_price_range(lower); l_price_range(upper);
    let (a, b) = (tick_price(lower), tick_price(upper));
    l_dx_le(a, b, l); l_dx_le(p, b, l); l_dy(a, p, l); l_dy(a, b, l); l_dy_le(a, p, l); l_dy_le(a, b, l);
}
pub proof fn l_dx_le(a: int, b: int, l: int) requires a >= E12, b >= E12, l >= 0 ensures dx(a, b, l, false) <= dx(a, b, l, true) {
    l_prod_min(a, b); l_dx_up(a, b, l); l_dx_down(a, b, l);
    let (t, u) = (dx(a, b, l, false), dx(a, b, l, true));
    assert(t <= u) by (nonlinear_arith) requires t * (a * b) * E5 <= adiff(a, b) * l * E24, u * (a * b) * E5 >= adiff(a, b) * l * E24, a * b >= E24;
}
pub proof fn l_dy_le(a: int, b: int, l: int) requires l >= 0 ensures dy(a, b, l, false) <= dy(a, b, l, true) {
    l_dy(a, b, l);
    let (t, u) = (dy(a, b, l, false), dy(a, b, l, true));
    assert(t <= u) by (nonlinear_arith) requires t * E24 * E5 <= adiff(a, b) * l, u * E24 * E5 >= adiff(a, b) * l;
}
