pub spec const ONE32: int = 4294967296;
pub spec const TWO32: int = 8589934592;
pub spec const ONE64: int = 18446744073709551616int;
/// floor of log2, as a specification by its defining property
pub open spec fn is_flog(v: int, r: int) -> bool { 0 <= r < 64 && (if v <= 0 { r == 0 } else { p2(r) <= v < p2(r + 1) }) }
pub proof fn l_p2_pos2(i: int) ensures p2(i) >= 1, i > 0 ==> p2(i) == 2 * p2(i - 1), i <= 0 ==> p2(i) == 1 decreases i { if i > 0 { l_p2_pos2(i - 1); } }
pub proof fn l_p2_mono(a: int, b: int) requires 0 <= a <= b ensures p2(a) <= p2(b) decreases b - a { if a < b { l_p2_mono(a, b - 1); l_p2_pos2(b - 1); l_p2_pos2(b); } }
pub proof fn l_flog_unique(v: int, w: int, r: int, s: int) requires is_flog(v, r), is_flog(w, s), v <= w ensures r <= s {
    if r > s { if v > 0 { l_p2_mono(s + 1, r); } }
}
pub open spec fn flog(v: int) -> int decreases v { if v <= 1 { 0 } else { flog(v / 2) + 1 } }
pub proof fn l_flog(v: int) requires v < p2(64) ensures is_flog(v, flog(v)) decreases v { l_flog_lt(v, 64); }
pub proof fn l_flog_lt(v: int, n: int) requires v < p2(n), 1 <= n <= 64 ensures 0 <= flog(v) < n, v <= 0 ==> flog(v) == 0, v > 0 ==> p2(flog(v)) <= v < p2(flog(v) + 1) decreases n {
    l_p2_pos2(n); l_p2_pos2(0); l_p2_pos2(1);
    if v > 1 { l_p2_pos2(n - 1); if n == 1 { assert(p2(0) == 1); } l_flog_lt(v / 2, n - 1); let f = flog(v / 2); l_p2_pos2(f + 1); l_p2_pos2(f + 2); }
}
/// bits of the logarithm below the binary point, down to 2^-15, of y in [1, 2) at scale 2^32
pub open spec fn frac(y: int, d: int) -> int decreases d {
    if d <= 65536 { 0 } else { let z = y * y / ONE32; if z >= TWO32 { d + frac(z / 2, d / 2) } else { frac(z, d / 2) } }
}
pub open spec fn mant(y: int) -> bool { ONE32 <= y < TWO32 }
pub proof fn l_sq(y: int) requires mant(y) ensures ({ let z = y * y / ONE32; z >= ONE32 && z < 2 * TWO32 && (z >= TWO32 ==> mant(z / 2)) }), y * y < 73786976294838206464int {
    assert(y * y >= ONE32 * ONE32) by (nonlinear_arith) requires y >= 4294967296, ONE32 == 4294967296;
    assert(y * y < TWO32 * TWO32) by (nonlinear_arith) requires 0 <= y, y < TWO32, TWO32 == 8589934592;
    assert(y * y <= TWO32 * TWO32 - 1);
}
pub proof fn l_frac_bound(y: int, d: int) requires mant(y), d >= 0 ensures 0 <= frac(y, d) <= 2 * d decreases d {
    if d > 65536 { l_sq(y); let z = y * y / ONE32; if z >= TWO32 { l_frac_bound(z / 2, d / 2) } else { l_frac_bound(z, d / 2) } }
}
pub proof fn l_frac_lt(y: int, d: int) requires mant(y), d > 0 ensures 0 <= frac(y, d) < 2 * d decreases d {
    if d > 65536 { l_sq(y); let z = y * y / ONE32; if z >= TWO32 { l_frac_lt(z / 2, d / 2) } else { l_frac_lt(z, d / 2) } }
}
pub proof fn l_frac_one(d: int) ensures frac(ONE32, d) == 0 decreases d {
    if d > 65536 { assert(ONE32 * ONE32 / ONE32 == ONE32) by (compute); l_frac_one(d / 2); }
}
pub proof fn l_frac_mono(a: int, b: int, d: int) requires mant(a), mant(b), a <= b, d >= 0 ensures frac(a, d) <= frac(b, d) decreases d {
    if d > 65536 {
        l_sq(a); l_sq(b); let (x, y) = (a * a / ONE32, b * b / ONE32);
        assert(a * a <= b * b) by (nonlinear_arith) requires 0 <= a <= b;
        l_fdiv_mono(a * a, b * b, ONE32);
        if y < TWO32 { l_frac_mono(x, y, d / 2); }
        else if x >= TWO32 { l_frac_mono(x / 2, y / 2, d / 2); }
        else { l_frac_lt(x, d / 2); l_frac_bound(y / 2, d / 2); }
    }
}
/// log2 at scale 2^32 of v >= 1 (v at scale 2^32)
pub open spec fn lg(v: int) -> int { let f = flog(v / ONE32); f * ONE32 + frac(v / p2(f), 2147483648) }
pub proof fn l_mant(v: int) requires ONE32 <= v < ONE64 ensures mant(v / p2(flog(v / ONE32))), 0 <= flog(v / ONE32) < 32 {
    let w = v / ONE32; let f = flog(w); let q = p2(f);
    assert(p2(32) == ONE32) by (compute); l_flog_lt(w, 32);
    l_p2_pos2(f); l_p2_pos2(f + 1);
    assert(w >= 1 && q <= w && w < 2 * q);
    l_fdiv(v, ONE32); l_le_fdiv(ONE32, v, q); l_fdiv(v, q);
    let y = v / q;
    assert(y < TWO32) by (nonlinear_arith) requires y * q <= v, v < w * ONE32 + ONE32, w < 2 * q, q > 0, ONE32 == 4294967296, TWO32 == 8589934592;
}
pub proof fn l_lg_bound(v: int) requires ONE32 <= v < ONE64 ensures 0 <= lg(v) < 32 * ONE32 { l_mant(v); l_frac_lt(v / p2(flog(v / ONE32)), 2147483648); }
pub proof fn l_lg_mono(a: int, b: int) requires ONE32 <= a <= b < ONE64 ensures lg(a) <= lg(b) {
    let (f, g) = (flog(a / ONE32), flog(b / ONE32));
    l_mant(a); l_mant(b); l_fdiv_mono(a, b, ONE32); assert(p2(64) == ONE64) by (compute); l_flog(a / ONE32); l_flog(b / ONE32); l_flog_unique(a / ONE32, b / ONE32, f, g);
    l_p2_pos2(f); l_p2_pos2(g);
    if f == g { l_fdiv_mono(a, b, p2(f)); l_frac_mono(a / p2(f), b / p2(f), 2147483648); }
    else { l_frac_lt(a / p2(f), 2147483648); l_frac_lt(b / p2(g), 2147483648); }
}
pub open spec fn x32(p: int) -> int { p * ONE32 / E24 }
pub open spec fn in_range(p: int) -> bool { MIN_SQRT_PRICE <= p <= MAX_SQRT_PRICE }
pub open spec fn up_side(p: int) -> bool { x32(p) >= ONE32 }
pub open spec fn mag(p: int) -> int { if up_side(p) { lg(x32(p)) / 309801 } else { (lg(ONE64 / (x32(p) + 1)) + 300000) / 309801 } }
pub open spec fn near(p: int) -> int { if up_side(p) { mag(p) } else { -mag(p) } }
pub open spec fn far(p: int) -> int { if up_side(p) { mag(p) + 1 } else { -mag(p) - 1 } }
/// the tick the code reports with spacing 1
pub open spec fn sel(p: int) -> int { if up_side(p) { if p >= tick_price(far(p)) { far(p) } else { near(p) } } else { if tick_price(near(p)) <= p { near(p) } else { far(p) } } }
/// a tick whose price the code cannot compute
pub open spec fn sel_err(p: int, s: int) -> bool { !in_range(p) || (falign(near(p), s) != falign(far(p), s) && if up_side(p) { !tick_ok(far(p)) } else { !tick_ok(near(p)) }) }
pub open spec fn falign(t: int, s: int) -> int { t - t % s }
pub proof fn l_x32(p: int) requires in_range(p) ensures 1 <= x32(p) < 281474976710656, !up_side(p) ==> ONE32 <= ONE64 / (x32(p) + 1) < ONE64 {
    assert(15258932000000000000int * 4294967296int / 1000000000000000000000000int >= 1) by (compute);
    assert(65535383934512647000000000000int * 4294967296int / 1000000000000000000000000int < 281474976710656) by (compute);
    l_mul_mono(MIN_SQRT_PRICE as int, p, ONE32); l_mul_mono(p, MAX_SQRT_PRICE as int, ONE32);
    l_fdiv_mono(MIN_SQRT_PRICE as int * ONE32, p * ONE32, E24); l_fdiv_mono(p * ONE32, MAX_SQRT_PRICE as int * ONE32, E24);
    let x = x32(p) + 1;
    if x <= ONE32 { assert(ONE32 * x <= ONE64) by (nonlinear_arith) requires x <= ONE32, ONE32 == 4294967296, ONE64 == 18446744073709551616int, x > 0; l_le_fdiv(ONE32, ONE64, x);
        l_fdiv(ONE64, x); let q = ONE64 / x; assert(q * 2 <= q * x) by (nonlinear_arith) requires q >= 0, x >= 2; }
}
pub proof fn l_mag(p: int) requires in_range(p) ensures 0 <= mag(p) <= 1000000 {
    l_x32(p); if up_side(p) { l_lg_bound(x32(p)); } else { l_lg_bound(ONE64 / (x32(p) + 1)); }
}
/// the reported tick never decreases when the price increases
pub proof fn l_near_mono(a: int, b: int) requires in_range(a), in_range(b), a <= b ensures near(a) <= near(b), up_side(a) ==> up_side(b) {
    l_x32(a); l_x32(b); l_mag(a); l_mag(b);
    l_mul_mono(a, b, ONE32); l_fdiv_mono(a * ONE32, b * ONE32, E24);
    if up_side(a) { l_lg_mono(x32(a), x32(b)); }
    else if !up_side(b) { let (x, y) = (x32(a) + 1, x32(b) + 1); let q = ONE64 / y; l_fdiv(ONE64, y); assert(q * x <= q * y) by (nonlinear_arith) requires x <= y, q >= 0; l_le_fdiv(q, ONE64, x); l_lg_mono(q, ONE64 / x); }
}
pub proof fn l_sel_mono(a: int, b: int) requires in_range(a), in_range(b), a <= b ensures sel(a) <= sel(b) { l_near_mono(a, b); l_mag(a); l_mag(b); }
/// what the exhaustive run of check C07 evaluates on the real function, for every tick
pub open spec fn boundary(t: int) -> bool { sel(tick_price(t)) == t && (t > MIN_TICK ==> sel(tick_price(t) - 1) == t - 1) }
/// given the boundaries, every price of the range gets the greatest tick whose price does not exceed it
pub proof fn l_tick_of_price(p: int, t: int)
    requires forall|u: int| #[trigger] tick_ok(u) ==> boundary(u), in_range(p), tick_ok(t), tick_price(t) <= p, t < MAX_TICK ==> p < tick_price(t + 1)
    ensures sel(p) == t
{
    l_price_range(t); l_price_ends(); assert(boundary(t)); l_sel_mono(tick_price(t), p);
    if t < MAX_TICK { assert(tick_ok(t + 1)); l_price_range(t + 1); l_price_mono(t, t + 1); l_sel_mono(p, tick_price(t + 1) - 1); assert(boundary(t + 1)); }
}
pub proof fn l_has_tick(p: int, t: int) -> (r: int)
    requires in_range(p), tick_ok(t), tick_price(t) <= p
    ensures tick_ok(r), tick_price(r) <= p, r < MAX_TICK ==> p < tick_price(r + 1)
    decreases MAX_TICK - t
{ if t == MAX_TICK || p < tick_price(t + 1) { t } else { l_has_tick(p, t + 1) } }
/// and with a spacing, the greatest multiple of the spacing
pub proof fn l_spaced(t: int, s: int, m: int) requires s > 0, m % s == 0, m <= t ensures falign(t, s) % s == 0, m <= falign(t, s) <= t {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, s); vstd::arithmetic::div_mod::lemma_mod_bound(t, s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, s);
    let (q, n) = (t / s, m / s); l_fdiv_mono(m, t, s); assert(s * n <= s * q) by (nonlinear_arith) requires n <= q, s > 0;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, s); assert(q * s == s * q) by (nonlinear_arith);
}
pub proof fn l_tick_correct(p: int, s: int, m: int) -> (t: int)
    requires forall|u: int| #[trigger] tick_ok(u) ==> boundary(u), in_range(p), s > 0, m % s == 0, tick_ok(m), tick_price(m) <= p
    ensures t == falign(sel(p), s), t % s == 0, m <= t, t >= MIN_TICK ==> tick_ok(t) && tick_price(t) <= p
{
    l_price_ends(); let r = l_has_tick(p, MIN_TICK as int); l_tick_of_price(p, r);
    if m > r { if r < MAX_TICK { if r + 1 < m { l_price_mono(r + 1, m); } } }
    l_spaced(r, s, m); let t = falign(r, s); if t >= MIN_TICK && t < r { l_price_mono(t, r); }
    t
}
pub proof fn l_flog_shift(v: int, k: int) requires k >= 0, v >= p2(k) ensures flog(v) == flog(v / p2(k)) + k decreases k {
    l_p2_pos2(k);
    if k > 0 { let q = p2(k - 1); l_p2_pos2(k - 1); l_fdiv(v, 2); l_le_fdiv(q, v, 2); l_flog_shift(v / 2, k - 1); vstd::arithmetic::div_mod::lemma_div_denominator(v, 2, q); }
    else { assert(v / 1 == v); }
}
pub proof fn l_fl_32(x: u64, m: u64, y: u64, n: u64)
    requires m & 63u64 == 0, m < 64, y == (if x >= 1u64 << 32 { x >> 32u64 } else { x }), n == (if x >= 1u64 << 32 { m | 32 } else { m })
    ensures y < 4294967296, n & 31u64 == 0, n < 64, flog(y as int) + n == flog(x as int) + m
{
    assert(1u64 << 32 == 4294967296u64) by (bit_vector);
    assert(x >> 32u64 == x / 4294967296u64) by (bit_vector);
    assert(m & 63u64 == 0 && m < 64 ==> m & 31u64 == 0 && (m | 32u64) == m + 32 && (m | 32u64) & 31u64 == 0 && (m | 32u64) < 64) by (bit_vector);
    assert(x >> 32u64 < 4294967296u64) by (bit_vector);
    assert(p2(32) == 4294967296) by (compute);
    if x >= 4294967296 { l_flog_shift(x as int, 32); }
}
pub proof fn l_fl_16(x: u64, m: u64, y: u64, n: u64)
    requires x < 4294967296, m & 31u64 == 0, m < 64, y == (if x >= 1u64 << 16 { x >> 16u64 } else { x }), n == (if x >= 1u64 << 16 { m | 16 } else { m })
    ensures y < 65536, n & 15u64 == 0, n < 64, flog(y as int) + n == flog(x as int) + m
{
    assert(1u64 << 16 == 65536u64) by (bit_vector);
    assert(x >> 16u64 == x / 65536u64) by (bit_vector);
    assert(m & 31u64 == 0 && m < 64 ==> m & 15u64 == 0 && (m | 16u64) == m + 16 && (m | 16u64) & 15u64 == 0 && (m | 16u64) < 64) by (bit_vector);
    assert(x < 4294967296u64 ==> x >> 16u64 < 65536u64) by (bit_vector);
    assert(p2(16) == 65536) by (compute);
    if x >= 65536 { l_flog_shift(x as int, 16); }
}
pub proof fn l_fl_8(x: u64, m: u64, y: u64, n: u64)
    requires x < 65536, m & 15u64 == 0, m < 64, y == (if x >= 1u64 << 8 { x >> 8u64 } else { x }), n == (if x >= 1u64 << 8 { m | 8 } else { m })
    ensures y < 256, n & 7u64 == 0, n < 64, flog(y as int) + n == flog(x as int) + m
{
    assert(1u64 << 8 == 256u64) by (bit_vector);
    assert(x >> 8u64 == x / 256u64) by (bit_vector);
    assert(m & 15u64 == 0 && m < 64 ==> m & 7u64 == 0 && (m | 8u64) == m + 8 && (m | 8u64) & 7u64 == 0 && (m | 8u64) < 64) by (bit_vector);
    assert(x < 65536u64 ==> x >> 8u64 < 256u64) by (bit_vector);
    assert(p2(8) == 256) by (compute);
    if x >= 256 { l_flog_shift(x as int, 8); }
}
pub proof fn l_fl_4(x: u64, m: u64, y: u64, n: u64)
    requires x < 256, m & 7u64 == 0, m < 64, y == (if x >= 1u64 << 4 { x >> 4u64 } else { x }), n == (if x >= 1u64 << 4 { m | 4 } else { m })
    ensures y < 16, n & 3u64 == 0, n < 64, flog(y as int) + n == flog(x as int) + m
{
    assert(1u64 << 4 == 16u64) by (bit_vector);
    assert(x >> 4u64 == x / 16u64) by (bit_vector);
    assert(m & 7u64 == 0 && m < 64 ==> m & 3u64 == 0 && (m | 4u64) == m + 4 && (m | 4u64) & 3u64 == 0 && (m | 4u64) < 64) by (bit_vector);
    assert(x < 256u64 ==> x >> 4u64 < 16u64) by (bit_vector);
    assert(p2(4) == 16) by (compute);
    if x >= 16 { l_flog_shift(x as int, 4); }
}
pub proof fn l_fl_2(x: u64, m: u64, y: u64, n: u64)
    requires x < 16, m & 3u64 == 0, m < 64, y == (if x >= 1u64 << 2 { x >> 2u64 } else { x }), n == (if x >= 1u64 << 2 { m | 2 } else { m })
    ensures y < 4, n & 1u64 == 0, n < 64, flog(y as int) + n == flog(x as int) + m
{
    assert(1u64 << 2 == 4u64) by (bit_vector);
    assert(x >> 2u64 == x / 4u64) by (bit_vector);
    assert(m & 3u64 == 0 && m < 64 ==> m & 1u64 == 0 && (m | 2u64) == m + 2 && (m | 2u64) & 1u64 == 0 && (m | 2u64) < 64) by (bit_vector);
    assert(x < 16u64 ==> x >> 2u64 < 4u64) by (bit_vector);
    assert(p2(2) == 4) by (compute);
    if x >= 4 { l_flog_shift(x as int, 2); }
}
pub proof fn l_fl_1(x: u64, m: u64, n: u64)
    requires x < 4, m & 1u64 == 0, m < 64, n == (if x >= 1u64 << 1 { m | 1 } else { m })
    ensures n < 64, n == flog(x as int) + m
{
    assert(1u64 << 1 == 2u64) by (bit_vector);
    assert(m & 1u64 == 0 && m < 64 ==> (m | 1u64) == m + 1 && (m | 1u64) < 64) by (bit_vector);
    assert(flog(0) == 0 && flog(1) == 0 && flog(2) == 1 && flog(3) == 1) by (compute);
    assert(x == 0 || x == 1 || x == 2 || x == 3);
}
/// one round of the loop
pub proof fn l_bit(r: u64, d: u64)
    requires r & sub(mul(2, d), 1) == 0, d & sub(d, 1) == 0, d >= 2, d <= 0x8000_0000, r <= 0x20_0000_0000
    ensures (r | d) as int == r + d, d >> 1 == d / 2, (d >> 1) & sub(d >> 1, 1) == 0, (r | d) & sub(mul(2, d >> 1), 1) == 0, r & sub(mul(2, d >> 1), 1) == 0
{
    assert((r | d) == add(r, d)) by (bit_vector) requires r & sub(mul(2, d), 1) == 0, d & sub(d, 1) == 0, d >= 2, d <= 0x8000_0000u64;
    assert(add(r, d) >= r && add(r, d) >= d) by (bit_vector) requires r & sub(mul(2, d), 1) == 0, d & sub(d, 1) == 0, d >= 2, d <= 0x8000_0000u64;
    assert(d >> 1 == d / 2) by (bit_vector);
    assert((d >> 1) & sub(d >> 1, 1) == 0 && (r | d) & sub(mul(2, d >> 1), 1) == 0 && r & sub(mul(2, d >> 1), 1) == 0) by (bit_vector) requires r & sub(mul(2, d), 1) == 0, d & sub(d, 1) == 0, d >= 2, d <= 0x8000_0000u64;
}
pub proof fn l_x32_inv(x: int) requires 1 <= x < ONE32 ensures ONE32 <= ONE64 / (x + 1) < ONE64 {
    let y = x + 1;
    assert(ONE32 * y <= ONE64) by (nonlinear_arith) requires y <= ONE32, ONE32 == 4294967296, ONE64 == 18446744073709551616int, y > 0; l_le_fdiv(ONE32, ONE64, y);
    l_fdiv(ONE64, y); let q = ONE64 / y; assert(q * 2 <= q * y) by (nonlinear_arith) requires q >= 0, y >= 2;
}
pub proof fn l_shr(n: u128, k: u64) requires k < 32 ensures (n >> k) as int == n as int / p2(k as int) decreases k {
    l_p2_pos2(k as int);
    if k == 0 { assert(n >> 0u64 == n) by (bit_vector); assert(p2(0) == 1); assert(n as int / 1 == n as int); assert(n >> k == n); } else {
        let j = (k - 1) as u64; l_shr(n, j); l_p2_pos2(j as int); assert(j as int == k as int - 1);
        assert(n >> k == (n >> j) / 2) by (bit_vector) requires k < 32, j == k - 1, k > 0;
        vstd::arithmetic::div_mod::lemma_div_denominator(n as int, p2(j as int), 2); assert(p2(j as int) * 2 == p2(k as int));
    }
}
pub proof fn l_falign2(t: int, s: int) requires s > 0 ensures falign(falign(t, s), s) == falign(t, s), t - s < falign(t, s) <= t {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, s); vstd::arithmetic::div_mod::lemma_mod_bound(t, s); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(t / s, s);
    assert((t / s) * s == s * (t / s)) by (nonlinear_arith);
}
