// ---- what the amounts and prices are, as integers at their decimal scales
pub spec const E5: int = 100000;
pub spec const E12: int = 1000000000000;
pub spec const E19: int = 10000000000000000000;
pub spec const E24: int = 1000000000000000000000000;
pub spec const E28: int = 10000000000000000000000000000;
pub open spec fn adiff(a: int, b: int) -> int { if a > b { a - b } else { b - a } }
/// token x between two sqrt prices for a liquidity, as the protocol rounds it
pub open spec fn dx(a: int, b: int, l: int, up: bool) -> int {
    if up { cdiv(cdiv(cdiv(adiff(a, b) * l, E5) * E24, a * b / E24), E24) }
    else { adiff(a, b) * l / E5 * E24 / cdiv(a * b, E24) / E24 }
}
pub open spec fn dy(a: int, b: int, l: int, up: bool) -> int {
    if up { cdiv(cdiv(adiff(a, b) * l, E5), E24) } else { adiff(a, b) * l / E5 / E24 }
}
/// next sqrt price after adding / removing x (rounded up) or y (rounded down)
pub open spec fn next_x(p: int, l: int, x: int, add: bool) -> int {
    if x == 0 { p } else if add { cdiv(cdiv(p * l, E5) * E24, l * E19 + p * x) } else { cdiv(cdiv(p * l, E5) * E24, l * E19 - p * x) }
}
pub open spec fn next_y(p: int, l: int, y: int, add: bool) -> int {
    if add { p + (y * E24) * E24 / (l * E19) } else { p - cdiv((y * E24) * E24, l * E19) }
}
pub open spec fn next_in(p: int, l: int, amt: int, x_to_y: bool) -> int { if x_to_y { next_x(p, l, amt, true) } else { next_y(p, l, amt, true) } }
pub open spec fn next_out(p: int, l: int, amt: int, x_to_y: bool) -> int { if x_to_y { next_y(p, l, amt, false) } else { next_x(p, l, amt, false) } }
pub open spec fn after_fee(amount: int, fee: int) -> int { amount * (E12 - fee) / E12 }
/// `t` covers the token x that the curve between a and b holds (in exact arithmetic)
pub open spec fn covers_x(t: int, a: int, b: int, l: int) -> bool { t * (a * b) * E5 >= adiff(a, b) * l * E24 }
pub open spec fn within_x(t: int, a: int, b: int, l: int) -> bool { t * (a * b) * E5 <= adiff(a, b) * l * E24 }
pub open spec fn covers_y(t: int, a: int, b: int, l: int) -> bool { t * E24 * E5 >= adiff(a, b) * l }
pub open spec fn within_y(t: int, a: int, b: int, l: int) -> bool { t * E24 * E5 <= adiff(a, b) * l }

pub proof fn l_dx_up(a: int, b: int, l: int)
    requires a > 0, b > 0, l >= 0, a * b / E24 > 0
    ensures covers_x(dx(a, b, l, true), a, b, l), dx(a, b, l, true) >= 0
{
    let d = adiff(a, b); let n = cdiv(d * l, E5); let den = a * b / E24; let m = cdiv(n * E24, den); let r = cdiv(m, E24);
    assert(d * l >= 0) by (nonlinear_arith) requires d >= 0, l >= 0;
    l_cdiv(d * l, E5); l_cdiv(n * E24, den); l_cdiv(m, E24); l_fdiv(a * b, E24);
    let ab = a * b;
    assert(r * ab >= r * (den * E24)) by (nonlinear_arith) requires r >= 0, den * E24 <= ab;
    assert(r * (den * E24) == (r * E24) * den) by (nonlinear_arith);
    l_mul_mono(m, r * E24, den);
    assert(r * ab >= n * E24);
    assert(r * ab * E5 >= d * l * E24) by (nonlinear_arith) requires r * ab >= n * E24, n * E5 >= d * l, E5 == 100000, E24 == 1000000000000000000000000;
}
pub proof fn l_dx_down(a: int, b: int, l: int)
    requires a > 0, b > 0, l >= 0
    ensures within_x(dx(a, b, l, false), a, b, l), dx(a, b, l, false) >= 0
{
    let d = adiff(a, b); let n = d * l / E5; let den = cdiv(a * b, E24); let m = n * E24 / den; let r = m / E24;
    assert(d * l >= 0) by (nonlinear_arith) requires d >= 0, l >= 0;
    assert(a * b > 0) by (nonlinear_arith) requires a > 0, b > 0;
    l_fdiv(d * l, E5); l_cdiv(a * b, E24); l_fdiv(n * E24, den); l_fdiv(m, E24);
    let ab = a * b;
    assert(r * ab <= r * (den * E24)) by (nonlinear_arith) requires r >= 0, den * E24 >= ab;
    assert(r * (den * E24) == (r * E24) * den) by (nonlinear_arith);
    l_mul_mono(r * E24, m, den);
    assert(r * ab <= n * E24);
    assert(r * ab * E5 <= d * l * E24) by (nonlinear_arith) requires r * ab <= n * E24, n * E5 <= d * l, E5 == 100000, E24 == 1000000000000000000000000;
}
pub proof fn l_dy(a: int, b: int, l: int)
    requires l >= 0
    ensures covers_y(dy(a, b, l, true), a, b, l), within_y(dy(a, b, l, false), a, b, l), dy(a, b, l, true) >= dy(a, b, l, false) >= 0,
        dy(a, b, l, true) <= dy(a, b, l, false) + 1, (dy(a, b, l, true) - 1) * E24 * E5 < adiff(a, b) * l
{
    let d = adiff(a, b);
    assert(d * l >= 0) by (nonlinear_arith) requires d >= 0, l >= 0;
    l_cdiv(d * l, E5); l_cdiv(cdiv(d * l, E5), E24); l_fdiv(d * l, E5); l_fdiv(d * l / E5, E24);
}
/// exactly when the amounts cannot be computed
pub open spec fn dx_err(a: int, b: int, l: int, up: bool) -> bool {
    let den = if up { a * b / E24 } else { cdiv(a * b, E24) };
    let nom = if up { cdiv(adiff(a, b) * l, E5) } else { adiff(a, b) * l / E5 };
    den == 0 || dx(a, b, l, up) > U256::umax()
    || (if up { nom * E24 + (den - 1) > U448::umax() || cdiv(nom * E24, den) + (E24 - 1) > U384::umax() } else { nom * E24 > U448::umax() || nom * E24 / den > U384::umax() })
}
pub open spec fn dy_err(a: int, b: int, l: int, up: bool) -> bool { dy(a, b, l, up) > U256::umax() || (up && cdiv(adiff(a, b) * l, E5) + (E24 - 1) > U384::umax()) }
pub open spec fn next_x_den(p: int, l: int, x: int, add: bool) -> int { if add { l * E19 + p * x } else { l * E19 - p * x } }
/// exactly when the next price cannot be computed (x != 0)
pub open spec fn next_x_err(p: int, l: int, x: int, add: bool) -> bool {
    let den = next_x_den(p, l, x, add);
    l * E19 > U384::umax() || den <= 0 || den > U384::umax() || cdiv(p * l, E5) * E24 + (den - 1) > U448::umax() || next_x(p, l, x, add) > u128::MAX
}
pub open spec fn next_y_err(p: int, l: int, y: int, add: bool) -> bool {
    l == 0 || y * E24 > U384::umax() || l * E19 > U384::umax() || next_y(p, l, y, add) > u128::MAX || next_y(p, l, y, add) < 0
    || (if add { (y * E24) * E24 > U448::umax() || (y * E24) * E24 / (l * E19) > u128::MAX } else { (y * E24) * E24 + (l * E19 - 1) > U448::umax() || cdiv((y * E24) * E24, l * E19) > u128::MAX })
}
pub open spec fn next_in_err(p: int, l: int, a: int, xy: bool) -> bool { if xy { a != 0 && next_x_err(p, l, a, true) } else { next_y_err(p, l, a, true) } }
pub open spec fn next_out_err(p: int, l: int, a: int, xy: bool) -> bool { if xy { next_y_err(p, l, a, false) } else { a != 0 && next_x_err(p, l, a, false) } }

// ---- one swap step
pub open spec fn covers(p: int, n: int, l: int, xy: bool, t: int) -> bool { if xy { covers_x(t, n, p, l) } else { covers_y(t, p, n, l) } }
pub open spec fn within(p: int, n: int, l: int, xy: bool, t: int) -> bool { if xy { within_y(t, n, p, l) } else { within_x(t, p, n, l) } }
pub open spec fn between(p: int, t: int, n: int) -> bool { if p >= t { t <= n <= p } else { p <= n <= t } }
pub open spec fn in_up(p: int, n: int, l: int, xy: bool) -> int { if xy { dx(n, p, l, true) } else { dy(p, n, l, true) } }
pub open spec fn out_down(p: int, n: int, l: int, xy: bool) -> int { if xy { dy(n, p, l, false) } else { dx(p, n, l, false) } }
pub open spec fn step_ok(p: int, t: int, l: int, a: int, by_in: bool, f: int, n: int, ain: int, aout: int, fa: int) -> bool {
    let xy = p >= t;
    if l == 0 { n == t && ain == 0 && aout == 0 && fa == 0 } else {
        &&& between(p, t, n)
        &&& covers(p, n, l, xy, ain)
        &&& within(p, n, l, xy, aout)
        &&& ain >= 0 && aout >= 0 && fa >= 0
        &&& aout <= out_down(p, n, l, xy)
        &&& (by_in ==> f <= E12 && ain + fa <= a)
        &&& (by_in && n != t ==> ain + fa == a && ain == in_up(p, n, l, xy) && n == next_in(p, l, after_fee(a, f), xy))
        &&& (by_in && n == t ==> fa == cdiv(ain * f, E12) && (ain == in_up(p, t, l, xy) || ain == after_fee(a, f)))
        &&& (by_in && after_fee(a, f) >= in_up(p, t, l, xy) ==> n == t)
        &&& (!by_in ==> aout <= a && fa == cdiv(ain * f, E12) && ain == in_up(p, n, l, xy))
        &&& (!by_in && n != t ==> n == next_out(p, l, a, xy) && (!xy && a != 0 ==> l * E19 - p * a > 0))
        &&& (!by_in && a >= out_down(p, t, l, xy) ==> n == t && aout == out_down(p, t, l, xy))
    }
}
/// the step as a function of its arguments; step_stop says that it needs a next price that cannot be computed, step_err that it answers with an error
pub open spec fn in_err(p: int, n: int, l: int, xy: bool) -> bool { if xy { dx_err(n, p, l, true) } else { dy_err(p, n, l, true) } }
pub open spec fn out_err(p: int, n: int, l: int, xy: bool) -> bool { if xy { dy_err(n, p, l, false) } else { dx_err(p, n, l, false) } }
pub open spec fn step_stop(p: int, t: int, l: int, a: int, by_in: bool, f: int) -> bool {
    let xy = p >= t;
    l != 0 && (if by_in { after_fee(a, f) < in_up(p, t, l, xy) && next_in_err(p, l, after_fee(a, f), xy) } else { a < out_down(p, t, l, xy) && next_out_err(p, l, a, xy) })
}
pub open spec fn step_next(p: int, t: int, l: int, a: int, by_in: bool, f: int) -> int {
    let xy = p >= t;
    if l == 0 { t } else if by_in {
        if after_fee(a, f) >= in_up(p, t, l, xy) { t } else { let m = next_in(p, l, after_fee(a, f), xy); if (xy && m <= t) || (!xy && m >= t) { t } else { m } }
    } else { if a >= out_down(p, t, l, xy) { t } else { next_out(p, l, a, xy) } }
}
pub open spec fn step_err(p: int, t: int, l: int, a: int, by_in: bool, f: int) -> bool {
    let xy = p >= t; let n = step_next(p, t, l, a, by_in, f);
    l != 0 && ((if by_in { in_err(p, t, l, xy) } else { out_err(p, t, l, xy) }) || step_stop(p, t, l, a, by_in, f)
        || ((n != t || !by_in) && in_err(p, n, l, xy)) || ((n != t || by_in) && out_err(p, n, l, xy)))
}
pub open spec fn step_in(p: int, t: int, l: int, a: int, by_in: bool, f: int) -> int {
    let xy = p >= t; let n = step_next(p, t, l, a, by_in, f);
    if l == 0 { 0 } else if by_in && n == t { if after_fee(a, f) >= in_up(p, t, l, xy) { in_up(p, t, l, xy) } else { after_fee(a, f) } } else { in_up(p, n, l, xy) }
}
pub open spec fn step_out(p: int, t: int, l: int, a: int, by_in: bool, f: int) -> int {
    let xy = p >= t; let o = out_down(p, step_next(p, t, l, a, by_in, f), l, xy);
    if l == 0 { 0 } else if !by_in && o > a { a } else { o }
}
pub open spec fn step_fee(p: int, t: int, l: int, a: int, by_in: bool, f: int) -> int {
    if l == 0 { 0 } else if by_in && step_next(p, t, l, a, by_in, f) != t { a - step_in(p, t, l, a, by_in, f) } else { cdiv(step_in(p, t, l, a, by_in, f) * f, E12) }
}
pub open spec fn step_is(p: int, t: int, l: int, a: int, by_in: bool, f: int, n: int, ain: int, aout: int, fa: int) -> bool {
    n == step_next(p, t, l, a, by_in, f) && ain == step_in(p, t, l, a, by_in, f) && aout == step_out(p, t, l, a, by_in, f) && fa == step_fee(p, t, l, a, by_in, f)
}
pub proof fn l_prod_min(a: int, b: int) requires a >= E12, b >= E12 ensures a * b >= E24, a * b / E24 > 0 {
    assert(a * b >= E24) by (nonlinear_arith) requires a >= 1000000000000, b >= 1000000000000, E24 == 1000000000000000000000000;
    l_le_fdiv(1, a * b, E24);
}
/// everything the "amount is what goes in" branch needs
pub proof fn l_step_in(p: int, t: int, l: int, a: int, f: int)
    requires p >= E12, t >= E12, l > 0, a >= 0, 0 <= f <= E12
    ensures ({ let xy = p >= t; let af = after_fee(a, f); let n = next_in(p, l, af, xy);
        &&& af >= 0 && af <= a
        &&& (xy ==> n <= p) && (!xy ==> n >= p)
        &&& ((xy && n <= t) || (!xy && n >= t) ==> covers(p, t, l, xy, af))
        &&& (between(p, t, n) ==> covers(p, n, l, xy, in_up(p, n, l, xy)) && within(p, n, l, xy, out_down(p, n, l, xy)) && out_down(p, n, l, xy) >= 0)
        &&& covers(p, t, l, xy, in_up(p, t, l, xy)) && in_up(p, t, l, xy) >= 0
        &&& within(p, t, l, xy, out_down(p, t, l, xy)) && out_down(p, t, l, xy) >= 0
        &&& forall|i: int| 0 <= i <= af ==> #[trigger] cdiv(i * f, E12) >= 0 && i + cdiv(i * f, E12) <= a
        &&& cdiv(af * f, E12) >= 0 && af + cdiv(af * f, E12) <= a
        &&& (between(p, t, n) ==> in_up(p, n, l, xy) >= 0)
    })
{
    let xy = p >= t; let af = after_fee(a, f); let n = next_in(p, l, af, xy);
    assert(a * (E12 - f) >= 0) by (nonlinear_arith) requires a >= 0, E12 - f >= 0;
    l_fdiv(a * (E12 - f), E12);
    assert(af <= a) by (nonlinear_arith) requires af * E12 <= a * (E12 - f), a >= 0, f >= 0, E12 > 0;
    l_prod_min(p, t); l_prod_min(t, p);
    assert(forall|i: int| 0 <= i <= af ==> #[trigger] cdiv(i * f, E12) >= 0 && i + cdiv(i * f, E12) <= a) by {
        assert forall|i: int| 0 <= i <= af implies #[trigger] cdiv(i * f, E12) >= 0 && i + cdiv(i * f, E12) <= a by {
            assert(i * f >= 0) by (nonlinear_arith) requires i >= 0, f >= 0;
            l_cdiv(i * f, E12);
            let c = cdiv(i * f, E12);
            assert(i * E12 <= a * (E12 - f)) by (nonlinear_arith) requires i <= af, af * E12 <= a * (E12 - f), E12 > 0;
            // i*(E12+f) <= a*E12
            assert(i * (E12 + f) <= a * E12) by (nonlinear_arith) requires i * E12 <= a * (E12 - f), i >= 0, a >= 0, 0 <= f <= E12, E12 == 1000000000000;
            assert((a - i) * E12 >= i * f) by (nonlinear_arith) requires i * (E12 + f) <= a * E12;
            l_cdiv_le(a - i, i * f, E12);
        }
    }
    assert(0 <= af <= af ==> cdiv(af * f, E12) >= 0 && af + cdiv(af * f, E12) <= a);
    l_step_in_price(p, t, l, af);
    if xy { l_dx_up(t, p, l); l_dy(t, p, l); } else { l_dy(p, t, l); l_dx_down(p, t, l); }
    if between(p, t, n) { l_prod_min(p, n); l_prod_min(n, p); if xy { l_dx_up(n, p, l); l_dy(n, p, l); } else { l_dy(p, n, l); l_dx_down(p, n, l); } }
}
pub proof fn l_step_in_price(p: int, t: int, l: int, af: int)
    requires p >= E12, t >= E12, l > 0, af >= 0
    ensures ({ let xy = p >= t; let n = next_in(p, l, af, xy);
        &&& (xy ==> n <= p) && (!xy ==> n >= p)
        &&& ((xy && n <= t) || (!xy && n >= t) ==> covers(p, t, l, xy, af)) })
{
    let xy = p >= t; let n = next_in(p, l, af, xy);
    if xy {
        if af > 0 {
            let pl = p * l; let nom = cdiv(pl, E5) * E24; let den = l * E19 + p * af;
            assert(pl > 0 && den > 0 && p * af > 0) by (nonlinear_arith) requires p > 0, l > 0, af > 0, pl == p * l, den == l * E19 + p * af;
            l_cdiv(pl, E5); l_cdiv(nom, den);
            assert(p * den == pl * E19 + p * p * af) by (nonlinear_arith) requires den == l * E19 + p * af, pl == p * l;
            assert(p * p * af >= E24) by (nonlinear_arith) requires p >= 1000000000000, af >= 1, E24 == 1000000000000000000000000;
            assert(nom <= p * den);
            l_cdiv_le(p, nom, den);
            if n <= t {
                assert(t * den >= nom) by (nonlinear_arith) requires n <= t, n * den >= nom, den > 0;
                assert(t * den == t * l * E19 + (t * p) * af) by (nonlinear_arith) requires den == l * E19 + p * af;
                assert(nom >= pl * E19);
                assert((p - t) * l == pl - t * l) by (nonlinear_arith) requires pl == p * l;
                assert(af * (t * p) == (t * p) * af) by (nonlinear_arith);
                assert(af * (t * p) * E5 >= (p - t) * l * E24);
            }
        } else if n <= t { assert(p == t); assert((p - t) * l == 0) by (nonlinear_arith) requires p == t; assert(af * (t * p) == 0) by (nonlinear_arith) requires af == 0; assert(adiff(t, p) == 0); }
    } else {
        let q = (af * E24) * E24 / (l * E19);
        assert(l * E19 > 0);
        l_fdiv((af * E24) * E24, l * E19);
        if n >= t {
            assert(q * (l * E19) >= (t - p) * (l * E19)) by (nonlinear_arith) requires q >= t - p, l * E19 > 0;
            assert((t - p) * (l * E19) == (t - p) * l * E19) by (nonlinear_arith);
        }
    }
}
pub proof fn l_step_out(p: int, t: int, l: int, a: int)
    requires p >= E12, t >= E12, l > 0, a >= 0
    ensures ({ let xy = p >= t; let n = next_out(p, l, a, xy); let valid = !xy && a != 0 ==> l * E19 - p * a > 0;
        &&& (a < out_down(p, t, l, xy) && valid ==> between(p, t, n))
        &&& (between(p, t, n) ==> covers(p, n, l, xy, in_up(p, n, l, xy)) && within(p, n, l, xy, out_down(p, n, l, xy)) && out_down(p, n, l, xy) >= 0 && in_up(p, n, l, xy) >= 0
            && (within(p, n, l, xy, out_down(p, n, l, xy)) && a <= out_down(p, n, l, xy) ==> within(p, n, l, xy, a)))
        &&& covers(p, t, l, xy, in_up(p, t, l, xy)) && in_up(p, t, l, xy) >= 0
        &&& within(p, t, l, xy, out_down(p, t, l, xy)) && out_down(p, t, l, xy) >= 0
        &&& (a <= out_down(p, t, l, xy) ==> within(p, t, l, xy, a))
        &&& forall|i: int, f: int| i >= 0 && f >= 0 ==> #[trigger] cdiv(i * f, E12) >= 0
    })
{
    let xy = p >= t; let n = next_out(p, l, a, xy);
    l_prod_min(p, t); l_prod_min(t, p);
    assert forall|i: int, f: int| i >= 0 && f >= 0 implies #[trigger] cdiv(i * f, E12) >= 0 by { assert(i * f >= 0) by (nonlinear_arith) requires i >= 0, f >= 0; l_cdiv(i * f, E12); }
    if xy { l_dx_up(t, p, l); l_dy(t, p, l); } else { l_dy(p, t, l); l_dx_down(p, t, l); }
    l_within_le(p, t, l, xy, a);
    if a < out_down(p, t, l, xy) {
        if xy {
            assert((a + 1) * E24 * E5 <= (p - t) * l);
            assert((p - t) * (l * E19) == (p - t) * l * E19) by (nonlinear_arith);
            assert((a * E24) * E24 <= (p - t) * (l * E19));
            assert(l * E19 > 0);
            l_cdiv_le(p - t, (a * E24) * E24, l * E19);
            l_cdiv((a * E24) * E24, l * E19);
        } else if a != 0 && l * E19 - p * a > 0 {
            let pl = p * l; let nom = cdiv(pl, E5) * E24; let den = l * E19 - p * a; let pt = p * t; let tl = t * l;
            let o = dx(p, t, l, false);
            l_within_le(p, t, l, xy, a + 1);
            assert((a + 1) * pt * E5 <= (t - p) * l * E24);
            assert((t - p) * l == tl - pl) by (nonlinear_arith) requires pl == p * l, tl == t * l;
            assert((a + 1) * pt == a * pt + pt) by (nonlinear_arith);
            assert(t * den == tl * E19 - a * pt) by (nonlinear_arith) requires den == l * E19 - p * a, tl == t * l, pt == p * t;
            assert(pl > 0) by (nonlinear_arith) requires pl == p * l, p > 0, l > 0;
            l_cdiv(pl, E5);
            assert(a * pt + pt <= (tl - pl) * E19);
            assert(nom <= pl * E19 + E24);
            assert(nom <= t * den);
            l_cdiv_le(t, nom, den);
            l_cdiv(nom, den);
            assert(p * den <= pl * E19) by (nonlinear_arith) requires den == l * E19 - p * a, pl == p * l, p >= 0, a >= 0;
            assert(n >= p) by (nonlinear_arith) requires n * den >= nom, nom >= pl * E19, p * den <= pl * E19, den > 0;
        }
    }
    if between(p, t, n) { l_prod_min(p, n); l_prod_min(n, p); l_within_le(p, n, l, xy, a); if xy { l_dx_up(n, p, l); l_dy(n, p, l); } else { l_dy(p, n, l); l_dx_down(p, n, l); } }
}
pub proof fn l_within_le(p: int, n: int, l: int, xy: bool, a: int)
    requires p > 0, n > 0, l >= 0
    ensures within(p, n, l, xy, out_down(p, n, l, xy)) && a <= out_down(p, n, l, xy) ==> within(p, n, l, xy, a)
{
    let o = out_down(p, n, l, xy);
    if a <= o && !xy { let pn = p * n; assert(pn > 0) by (nonlinear_arith) requires p > 0, n > 0, pn == p * n; assert(a * pn <= o * pn) by (nonlinear_arith) requires a <= o, pn > 0; }
}
/// the step, as computed, meets its specification
pub proof fn l_step_fn(p: int, t: int, l: int, a: int, by_in: bool, f: int)
    requires p >= E12, t >= E12, l >= 0, a >= 0, f >= 0, l == 0 || !by_in || f <= E12, step_fee(p, t, l, a, by_in, f) >= 0, !step_err(p, t, l, a, by_in, f)
    ensures step_ok(p, t, l, a, by_in, f, step_next(p, t, l, a, by_in, f), step_in(p, t, l, a, by_in, f), step_out(p, t, l, a, by_in, f), step_fee(p, t, l, a, by_in, f))
{
    hide(dx); hide(dy); hide(next_in); hide(next_out); hide(covers); hide(within);
    if l > 0 {
        if by_in { l_step_in(p, t, l, a, f); } else {
            l_step_out(p, t, l, a);
            assert(!(p >= t) && a != 0 && a < out_down(p, t, l, false) ==> l * E19 - p * a > 0);
        }
    }
}
