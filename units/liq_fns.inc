/// liquidity that x of token x buys between prices q and u, and the exact statement that it is rounded down
pub open spec fn liq_x(x: int, q: int, u: int) -> int { x * (q * u / E24) * E5 / (u - q) }
pub open spec fn liq_y(y: int, d: int) -> int { y * E24 * E5 / d }
pub open spec fn amount_x(n: int, den: int, l: int, up: bool) -> int { let c = l * n / E24 * E24 / den; if up { (c + E5 - 1) / E5 } else { c / E5 } }
pub open spec fn amount_y(d: int, l: int, up: bool) -> int { if up { (d * (l / E5) + E24 - 1) / E24 } else { d * (l / E5) / E24 } }
pub open spec fn by_x_l(x: int, lo: int, u: int, p: int) -> int { liq_x(x, if p < lo { lo } else { p }, u) }
pub open spec fn by_x_y(lo: int, p: int, l: int, up: bool) -> int { if p < lo { 0 } else { amount_y(p - lo, l, up) } }
pub open spec fn by_y_l(y: int, lo: int, u: int, p: int) -> int { liq_y(y, if u <= p { u - lo } else { p - lo }) }
pub open spec fn by_y_x(u: int, p: int, l: int, up: bool) -> int { if u <= p { 0 } else { amount_x(u - p, p * u / E24, l, up) } }
pub open spec fn single_x(r: SingleTokenLiquidity, x: int, lo: int, u: int, p: int, up: bool) -> bool { p <= u && r.l.d() == by_x_l(x, lo, u, p) && r.amount.d() == by_x_y(lo, p, r.l.d(), up) }
pub open spec fn single_y(r: SingleTokenLiquidity, y: int, lo: int, u: int, p: int, up: bool) -> bool { p >= lo && r.l.d() == by_y_l(y, lo, u, p) && r.amount.d() == by_y_x(u, p, r.l.d(), up) }
//@struct src/contracts/logic/liquidity_result.rs LiquidityResult
//@struct src/contracts/logic/liquidity_result.rs SingleTokenLiquidity
//@fn src/contracts/logic/liquidity_result.rs calculate_x -> r
    ensures match r { Ok(t) => denominator.d() != 0 && t.d() == amount_x(nominator.d(), denominator.d(), liquidity.d(), rounding_up), Err(_) => false }
//@end
//@fn src/contracts/logic/liquidity_result.rs calculate_y -> r
    ensures match r { Ok(t) => t.d() == amount_y(sqrt_price_diff.d(), liquidity.d(), rounding_up), Err(_) => false }
//@end
//@fn src/contracts/logic/liquidity_result.rs get_liquidity_by_x_sqrt_price -> r
    ensures match r { Ok(s) => single_x(s, x.d(), lower_sqrt_price.d(), upper_sqrt_price.d(), current_sqrt_price.d(), rounding_up),
        Err(_) => upper_sqrt_price.d() < current_sqrt_price.d() || by_x_l(x.d(), lower_sqrt_price.d(), upper_sqrt_price.d(), current_sqrt_price.d()) > U256::umax() }
//@pre
    hide(amount_y); hide(amount_x); hide(liq_x);
    proof { l_liq_x_def(x.d(), lower_sqrt_price.d(), upper_sqrt_price.d()); l_liq_x_def(x.d(), current_sqrt_price.d(), upper_sqrt_price.d()); }
//@end
//@fn src/contracts/logic/liquidity_result.rs get_liquidity_by_y_sqrt_price -> r
    ensures match r { Ok(s) => single_y(s, y.d(), lower_sqrt_price.d(), upper_sqrt_price.d(), current_sqrt_price.d(), rounding_up),
        Err(_) => current_sqrt_price.d() < lower_sqrt_price.d() || by_y_l(y.d(), lower_sqrt_price.d(), upper_sqrt_price.d(), current_sqrt_price.d()) > U256::umax() }
//@pre
    hide(amount_y); hide(amount_x); hide(liq_x);
    proof { l_liq_x_def(y.d(), current_sqrt_price.d(), upper_sqrt_price.d()); assert(E24 == 1 * E24 && E5 == 1 * E5); }
//@end
//@fn src/contracts/logic/liquidity_result.rs get_liquidity_by_x -> r
    ensures match r { Ok(s) => tick_ok(lower_tick as int) && tick_ok(upper_tick as int) && single_x(s, x.d(), tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.d(), rounding_up),
        Err(_) => !tick_ok(lower_tick as int) || !tick_ok(upper_tick as int) || tick_price(upper_tick as int) < current_sqrt_price.d() || by_x_l(x.d(), tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.d()) > U256::umax() }
//@end
//@fn src/contracts/logic/liquidity_result.rs get_liquidity_by_y -> r
    ensures match r { Ok(s) => tick_ok(lower_tick as int) && tick_ok(upper_tick as int) && single_y(s, y.d(), tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.d(), rounding_up),
        Err(_) => !tick_ok(lower_tick as int) || !tick_ok(upper_tick as int) || current_sqrt_price.d() < tick_price(lower_tick as int) || by_y_l(y.d(), tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.d()) > U256::umax() }
//@end
//@if sdk
//@else
/// the result when both tokens are offered: only one token counts outside the range, the scarcer one inside
pub open spec fn both(r: LiquidityResult, x: int, y: int, lo: int, u: int, p: int, up: bool) -> bool {
    let (ly, lx) = (by_y_l(y, lo, u, p), by_x_l(x, lo, u, p));
    let take_y = u < p || p >= lo && ly < lx;
    if take_y { r.y.d() == y && r.l.d() == ly && r.x.d() == by_y_x(u, p, ly, up) } else { r.x.d() == x && r.l.d() == lx && r.y.d() == by_x_y(lo, p, lx, up) }
}
//@fn src/contracts/logic/liquidity_result.rs get_liquidity -> r
    ensures match r { Ok(s) => tick_ok(lower_tick as int) && tick_ok(upper_tick as int) && both(s, x.d(), y.d(), tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.d(), rounding_up),
        Err(_) => ({ let (lo, u, p) = (tick_price(lower_tick as int), tick_price(upper_tick as int), current_sqrt_price.d());
            !tick_ok(lower_tick as int) || !tick_ok(upper_tick as int) || (u < p && p < lo) || (p >= lo && by_y_l(y.d(), lo, u, p) > U256::umax()) || (u >= p && by_x_l(x.d(), lo, u, p) > U256::umax()) }) }
//@end
//@fi
/// rounded down: never more than the exact curve liquidity  x * q*u/(u-q)  and  y/(u-q)
pub proof fn l_liq_x(x: int, q: int, u: int) requires x >= 0, q >= 0, u > q ensures liq_x(x, q, u) >= 0, liq_x(x, q, u) * (u - q) * E24 <= x * (q * u) * E5 {
    let k = q * u; let t = k / E24; let n = x * t * E5; let r = liq_x(x, q, u);
    assert(k >= 0) by (nonlinear_arith) requires q >= 0, u >= 0, k == q * u;
    l_fdiv(k, E24);
    assert(n >= 0) by (nonlinear_arith) requires x >= 0, t >= 0, n == x * t * E5, E5 == 100000;
    l_fdiv(n, u - q);
    assert(r * (u - q) * E24 <= n * E24) by (nonlinear_arith) requires r * (u - q) <= n, E24 == 1000000000000000000000000;
    assert(n * E24 == x * (t * E24) * E5) by (nonlinear_arith) requires n == x * t * E5;
    assert(x * (t * E24) * E5 <= x * k * E5) by (nonlinear_arith) requires x >= 0, t * E24 <= k, E5 == 100000;
}
pub proof fn l_liq_y(y: int, d: int) requires y >= 0, d > 0 ensures liq_y(y, d) >= 0, liq_y(y, d) * d <= y * E24 * E5 < (liq_y(y, d) + 1) * d {
    assert(y * E24 * E5 >= 0) by (nonlinear_arith) requires y >= 0, E24 == 1000000000000000000000000, E5 == 100000;
    l_fdiv(y * E24 * E5, d);
    assert((liq_y(y, d) + 1) * d == liq_y(y, d) * d + d) by (nonlinear_arith);
}
pub proof fn l_liq_x_def(x: int, q: int, u: int) ensures liq_x(x, q, u) == (x * (q * u * E24 / E24 / E24)) * E5 / (u - q), q * u / E24 * E24 / E24 == q * u / E24, liq_x(x, q, u) == (x * (q * u / E24)) * E5 / (u - q) {
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q * u, E24); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q * u / E24, E24);
    assert(q * u * E24 == E24 * (q * u)) by (nonlinear_arith); assert((q * u / E24) * E24 == E24 * (q * u / E24)) by (nonlinear_arith);
}
