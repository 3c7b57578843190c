// ---- the price of a tick: eighteen factors, one per bit of |tick|
pub open spec fn tick_factor(i: int) -> int {
    if i == 0 { 1000049998750 } else if i == 1 { 1000100000000 } else if i == 2 { 1000200010000 } else if i == 3 { 1000400060004 } else if i == 4 { 1000800280056 } else if i == 5 { 1001601200560 } else if i == 6 { 1003204964963 } else if i == 7 { 1006420201726 } else if i == 8 { 1012881622442 } else if i == 9 { 1025929181080 } else if i == 10 { 1052530684591 } else if i == 11 { 1107820842005 } else if i == 12 { 1227267017980 } else if i == 13 { 1506184333421 } else if i == 14 { 2268591246242 } else if i == 15 { 5146506242525 } else if i == 16 { 26486526504348 } else if i == 17 { 701536086265529 } else { E12 }
}
pub open spec fn fmul(v: int, c: int) -> int { v * c / E12 }
/// factors i..18 for the bits of `t` (bit 0 of t belongs to factor i), applied to v
pub open spec fn chain(v: int, t: int, i: int) -> int decreases 18 - i {
    if i >= 18 { v } else { chain(if t % 2 == 1 { fmul(v, tick_factor(i)) } else { v }, t / 2, i + 1) }
}
pub open spec fn tick_fixed(t: int) -> int { chain(E12, t, 0) }
/// square-root price (24 decimals) of a tick
pub open spec fn tick_price(t: int) -> int { if t >= 0 { tick_fixed(t) * E12 } else { (E12 * E12 / tick_fixed(-t)) * E12 } }
pub open spec fn tick_ok(t: int) -> bool { MIN_TICK <= t <= MAX_TICK }

/// value after factors 0..i were all applied
pub open spec fn ones(i: int) -> int { if i == 0 { 1000000000000 } else if i == 1 { 1000049998750 } else if i == 2 { 1000150003749 } else if i == 3 { 1000350043751 } else if i == 4 { 1000750243793 } else if i == 5 { 1001551124254 } else if i == 6 { 1003154808475 } else if i == 7 { 1006369884488 } else if i == 8 { 1012830982157 } else if i == 9 { 1025877888466 } else if i == 10 { 1052478062002 } else if i == 11 { 1107765455115 } else if i == 12 { 1227205659229 } else if i == 13 { 1506109029850 } else if i == 14 { 2268477825183 } else if i == 15 { 5146248936504 } else if i == 16 { 26485202277305 } else if i == 17 { 701501012090856 } else if i == 18 { 492128274533526656 } else { 0 } }
pub proof fn l_ones(i: int) requires 0 <= i < 18 ensures fmul(ones(i), tick_factor(i)) == ones(i + 1), 25000 * (tick_factor(i) - ones(i)) >= ones(i) + 450000, ones(i) >= E12, tick_factor(i) > E12 {
    if i == 0 { assert(1000000000000int * 1000049998750 / 1000000000000 == 1000049998750) by (compute); }
    if i == 1 { assert(1000049998750int * 1000100000000 / 1000000000000 == 1000150003749) by (compute); }
    if i == 2 { assert(1000150003749int * 1000200010000 / 1000000000000 == 1000350043751) by (compute); }
    if i == 3 { assert(1000350043751int * 1000400060004 / 1000000000000 == 1000750243793) by (compute); }
    if i == 4 { assert(1000750243793int * 1000800280056 / 1000000000000 == 1001551124254) by (compute); }
    if i == 5 { assert(1001551124254int * 1001601200560 / 1000000000000 == 1003154808475) by (compute); }
    if i == 6 { assert(1003154808475int * 1003204964963 / 1000000000000 == 1006369884488) by (compute); }
    if i == 7 { assert(1006369884488int * 1006420201726 / 1000000000000 == 1012830982157) by (compute); }
    if i == 8 { assert(1012830982157int * 1012881622442 / 1000000000000 == 1025877888466) by (compute); }
    if i == 9 { assert(1025877888466int * 1025929181080 / 1000000000000 == 1052478062002) by (compute); }
    if i == 10 { assert(1052478062002int * 1052530684591 / 1000000000000 == 1107765455115) by (compute); }
    if i == 11 { assert(1107765455115int * 1107820842005 / 1000000000000 == 1227205659229) by (compute); }
    if i == 12 { assert(1227205659229int * 1227267017980 / 1000000000000 == 1506109029850) by (compute); }
    if i == 13 { assert(1506109029850int * 1506184333421 / 1000000000000 == 2268477825183) by (compute); }
    if i == 14 { assert(2268477825183int * 2268591246242 / 1000000000000 == 5146248936504) by (compute); }
    if i == 15 { assert(5146248936504int * 5146506242525 / 1000000000000 == 26485202277305) by (compute); }
    if i == 16 { assert(26485202277305int * 26486526504348 / 1000000000000 == 701501012090856) by (compute); }
    if i == 17 { assert(701501012090856int * 701536086265529 / 1000000000000 == 492128274533526656) by (compute); }
}
pub proof fn l_fmul(v: int, c: int) requires v >= 0, c >= E12 ensures fmul(v, c) >= v {
    assert(v * c >= v * E12) by (nonlinear_arith) requires v >= 0, c >= E12; l_le_fdiv(v, v * c, E12);
}
pub proof fn l_fmul_mono(a: int, b: int, c: int) requires 0 <= a <= b, c >= 0 ensures fmul(a, c) <= fmul(b, c) { l_mul_mono(a, b, c); l_fdiv_mono(a * c, b * c, E12); }
/// one factor keeps a relative distance of 1/25000
pub proof fn l_gap(a: int, b: int, c: int, m: int)
    requires 25000 * (b - a) >= a + m, m >= 25000, a >= 0, c >= E12
    ensures 25000 * (fmul(b, c) - fmul(a, c)) >= fmul(a, c) + m - 25000
{
    l_fdiv(a * c, E12); l_fdiv(b * c, E12);
    let (x, y) = (fmul(a, c), fmul(b, c));
    assert(25000 * (b * c - a * c) >= a * c + m * c) by (nonlinear_arith) requires 25000 * (b - a) >= a + m, c >= 0;
    assert(m * c >= m * E12) by (nonlinear_arith) requires c >= E12, m >= 0;
    // y*E12 > b*c - E12, x*E12 <= a*c
    assert((25000 * (y - x)) * E12 > x * E12 + m * E12 - 25000 * E12);
    assert(25000 * (y - x) > x + m - 25000) by (nonlinear_arith) requires (25000 * (y - x)) * E12 > (x + m - 25000) * E12, E12 > 0;
}
pub proof fn l_chain_gap(a: int, b: int, t: int, i: int)
    requires 0 <= i <= 18, 0 <= t, a >= 0, 25000 * (b - a) >= a + 25000 * (18 - i)
    ensures 25000 * (chain(b, t, i) - chain(a, t, i)) >= chain(a, t, i), chain(a, t, i) >= a
    decreases 18 - i
{
    if i < 18 {
        l_ones(i);
        let c = tick_factor(i);
        if t % 2 == 1 { l_gap(a, b, c, 25000 * (18 - i)); l_fmul(a, c); l_fmul(b, c); l_chain_gap(fmul(a, c), fmul(b, c), t / 2, i + 1); }
        else { l_chain_gap(a, b, t / 2, i + 1); }
    }
}
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
/// the carry of +1: factors 0..i were all applied for t, none for t + 1
pub proof fn l_chain_succ(t: int, i: int)
    requires 0 <= i <= 18, 0 <= t, t + 1 < p2(18 - i)
    ensures 25000 * (chain(E12, t + 1, i) - chain(ones(i), t, i)) >= chain(ones(i), t, i), chain(ones(i), t, i) >= E12
    decreases 18 - i
{
    if i == 18 { assert(p2(0) == 1); } else {
        l_ones(i); let c = tick_factor(i);
        if t % 2 == 0 {
            assert((t + 1) / 2 == t / 2 && (t + 1) % 2 == 1);
            assert(fmul(E12, c) == c) by { assert(c * E12 == E12 * c); l_fdiv_unique(E12 * c, E12, c); }
            l_chain_gap(ones(i), c, t / 2, i + 1);
            assert(chain(E12, t + 1, i) == chain(c, t / 2, i + 1));
            assert(chain(ones(i), t, i) == chain(ones(i), t / 2, i + 1));
        } else {
            assert((t + 1) / 2 == t / 2 + 1 && (t + 1) % 2 == 0);
            l_chain_succ(t / 2, i + 1);
            assert(chain(E12, t + 1, i) == chain(E12, t / 2 + 1, i + 1));
            assert(chain(ones(i), t, i) == chain(ones(i + 1), t / 2, i + 1));
        }
    }
}
pub proof fn l_p2_18() ensures p2(18) == 262144 { assert(p2(18) == 262144) by (compute); }
/// neighbouring ticks differ by at least 1/25000
pub proof fn l_fixed_succ(t: int) requires 0 <= t < 262143 ensures 25000 * (tick_fixed(t + 1) - tick_fixed(t)) >= tick_fixed(t), tick_fixed(t) >= E12 { l_p2_18(); l_chain_succ(t, 0); }
pub proof fn l_fixed_mono(a: int, b: int) requires 0 <= a < b <= 262143 ensures tick_fixed(a) < tick_fixed(b), 25000 * (tick_fixed(b) - tick_fixed(a)) >= tick_fixed(a), tick_fixed(a) >= E12 decreases b - a {
    l_fixed_succ(a); if a + 1 < b { l_fixed_mono(a + 1, b); }
}

pub proof fn l_fixed_ends() ensures tick_fixed(0) == E12, tick_fixed(221818) == 65535383934512647 {
    assert(tick_fixed(0) == E12) by (compute);
    assert(tick_fixed(221818) == 65535383934512647) by (compute);
}
pub proof fn l_fixed_range(t: int) requires 0 <= t <= 221818 ensures E12 <= tick_fixed(t) <= 65535383934512647 {
    l_fixed_ends(); if t > 0 { l_fixed_mono(0, t); } if t < 221818 { l_fixed_mono(t, 221818); }
}
/// a higher tick has a strictly higher price, and all prices lie between the published bounds
pub proof fn l_price_mono(a: int, b: int) requires tick_ok(a), tick_ok(b), a < b ensures tick_price(a) < tick_price(b) {
    if a >= 0 { l_fixed_mono(a, b); }
    else if b < 0 {
        let (x, y) = (tick_fixed(-b), tick_fixed(-a));
        l_fixed_mono(-b, -a); l_fixed_range(-a);
        l_recip(x, y);
    } else { l_fixed_succ(0); l_fixed_ends(); l_fixed_mono(0, -a); l_fixed_range(b); l_fixed_range(-a); let x = tick_fixed(-a); l_fdiv(E12 * E12, x); l_recip(E12, x);
        assert(E12 * E12 / E12 == E12) by (compute); }
}
pub proof fn l_recip(x: int, y: int) requires E12 <= x < y <= 65535383934512647, 25000 * (y - x) >= x ensures E12 * E12 / y < E12 * E12 / x {
    let k = E12 * E12; let (p, q) = (k / y, k / x);
    assert(E12 * E12 == 1000000000000000000000000) by (compute);
    l_fdiv(k, x); l_fdiv(k, y);
    // if p >= q: q*y <= k < q*x + x, so q*(y-x) < x; but q >= 15258931 and 25000*(y-x) >= x
    if p >= q {
        assert(q * y <= k) by (nonlinear_arith) requires p >= q, p * y <= k, y > 0;
        assert(q * (y - x) < x) by (nonlinear_arith) requires q * y <= k, k < q * x + x;
        if q < 100000 { assert(q * x + x <= 100000 * x) by (nonlinear_arith) requires q <= 99999, x >= 0; }
        assert(q * (y - x) >= x) by (nonlinear_arith) requires q >= 100000, 25000 * (y - x) >= x, y > x;
    }
}
pub proof fn l_price_range(t: int) requires tick_ok(t) ensures MIN_SQRT_PRICE <= tick_price(t) <= MAX_SQRT_PRICE, tick_price(t) >= E12 {
    l_fixed_ends(); l_price_ends();
    if t > MIN_TICK { l_price_mono(MIN_TICK as int, t); }
    if t < MAX_TICK { l_price_mono(t, MAX_TICK as int); }
}
pub proof fn l_price_ends() ensures tick_price(0) == E24, tick_price(221818) == MAX_SQRT_PRICE, tick_price(-221818) == MIN_SQRT_PRICE {
    l_fixed_ends(); assert(E12 * E12 == E24) by (compute);
    assert(E12 * E12 / 65535383934512647 * E12 == 15258932000000000000) by (compute);
    assert(65535383934512647 * E12 == 65535383934512647000000000000) by (compute);
}
