// ---- the claims on a pool
pub spec const E33: int = 1000000000000000000000000000000000;
pub open spec fn clampi(p: int, a: int, b: int) -> int { if p < a { a } else if p > b { b } else { p } }
/// what liquidity l between the prices a and b is worth at the price p, exactly
pub open spec fn val(isx: bool, l: int, p: int, a: int, b: int) -> real { (l as real) * (worth(isx, clampi(p, a, b)) - worth(isx, if isx { b } else { a })) }
pub open spec fn gain(g: int, l: int) -> real { ((g * l) as real) / (E33 as real) }
pub open spec fn in_of(isx: bool, lo: Tick, up: Tick, q: Pool) -> int { if isx { in_x(lo, up, q) } else { in_y(lo, up, q) } }
pub open spec fn last_of(isx: bool, z: Position) -> int { if isx { z.fee_growth_inside_x.d() } else { z.fee_growth_inside_y.d() } }
pub open spec fn owed_of(isx: bool, z: Position) -> int { if isx { z.tokens_owed_x.d() } else { z.tokens_owed_y.d() } }
pub open spec fn fp_of(isx: bool, q: Pool) -> int { if isx { q.fee_protocol_token_x.d() } else { q.fee_protocol_token_y.d() } }
pub open spec fn glob_of(isx: bool, q: Pool) -> int { if isx { q.fee_growth_global_x.d() } else { q.fee_growth_global_y.d() } }
pub open spec fn out_of(isx: bool, t: Tick) -> int { if isx { t.fee_growth_outside_x.d() } else { t.fee_growth_outside_y.d() } }
/// the claim of a position: fees set aside, fees accrued since, and the exact worth of its liquidity at the pool's price
pub open spec fn claim(isx: bool, q: Pool, lo: Tick, up: Tick, z: Position) -> real {
    (owed_of(isx, z) as real) + gain(wsub(in_of(isx, lo, up, q), last_of(isx, z)), z.liquidity.d()) + val(isx, z.liquidity.d(), q.sqrt_price.d(), tick_price(z.lower_tick_index as int), tick_price(z.upper_tick_index as int))
}
pub type TM = Map<(PoolKey, i32), Tick>;
pub open spec fn cf(isx: bool, k: PoolKey, q: Pool, t: TM) -> PF { |x: (ActorId, u32), z: Position| if z.pool_key == k { claim(isx, q, t[(k, z.lower_tick_index)], t[(k, z.upper_tick_index)], z) } else { 0real } }
/// everything a pool owes of one of its tokens
pub open spec fn claims(isx: bool, k: PoolKey, m: PM, q: Pool, t: TM) -> real { (fp_of(isx, q) as real) + rsum(m, cf(isx, k, q, t)) }
/// stored ticks carry their own index
pub open spec fn at_index(a: Invariant, k: PoolKey, t: TM) -> bool { forall|i: i32| #[trigger] thas(a.ticks, k, i) ==> t[(k, i)].index == i }
pub proof fn l_gain(x: real, g: int, l: int, h: int, c: int) requires l >= 0, 0 <= g <= h + c, x == (c as real) / (E33 as real) ensures gain(g, l) <= gain(h, l) + x * (l as real) {
    let (e, u, v, w, lr) = (E33 as real, gain(g, l), gain(h, l), x, l as real); let (gl, hl, cl) = (g * l, h * l, c * l);
    l_rdiv(gl as real, e); l_rdiv(hl as real, e); l_rdiv(c as real, e); l_rmul_eq(c, l, c as real, lr);
    assert(gl <= hl + cl) by (nonlinear_arith) requires gl == g * l, hl == h * l, cl == c * l, g <= h + c, l >= 0;
    let s = w * lr; assert(s * e == (c as real) * lr) by (nonlinear_arith) requires s == w * lr, w * e == c as real;
    let r = v + s; assert(r * e == v * e + s * e) by (nonlinear_arith) requires r == v + s; l_rcancel(r, u, e);
}
pub proof fn l_wsub_add(i: int, j: int, b: int, c: int) requires c >= 0, j == (i + c) % W128 ensures 0 <= wsub(j, b) <= wsub(i, b) + c {
    reveal(wsub); let x = l_mod_q(i + c, W128); let y = l_mod_q(i - b, W128); let u = wsub(i, b) + c;
    assert(j - b == u + (x - y) * W128) by (nonlinear_arith) requires j == i + c + x * W128, u == i - b + y * W128 + c; l_mod_eq(j - b, u, x - y, W128);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(u, W128); vstd::arithmetic::div_mod::lemma_mod_bound(u, W128); vstd::arithmetic::div_mod::lemma_mod_bound(j - b, W128); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(u, W128);
    let q = u / W128; assert(W128 * q >= 0) by (nonlinear_arith) requires q >= 0;
}
/// booking growth c at the current tick: the growth inside rises by c where the position is active, and stays where it is not
pub proof fn l_in_fee(isx: bool, lo: Tick, up: Tick, p: Pool, q: Pool, last: int, c: int)
    requires lo.index < up.index, c >= 0, q.current_tick_index == p.current_tick_index, glob_of(isx, q) == wadd(glob_of(isx, p), c)
    ensures 0 <= wsub(in_of(isx, lo, up, q), last) <= wsub(in_of(isx, lo, up, p), last) + (if lo.index <= p.current_tick_index < up.index { c } else { 0 })
{
    let (l, u, a, b, cur, g, h) = (lo.index as int, up.index as int, out_of(isx, lo), out_of(isx, up), p.current_tick_index as int, glob_of(isx, p), glob_of(isx, q));
    l_inside_closed(l, a, u, b, cur, g); l_inside_closed(l, a, u, b, cur, h);
    let act = l <= cur < u; let e = if cur < l { a - b } else if cur < u { g - a - b } else { b - a }; let f = if cur < l { a - b } else if cur < u { h - a - b } else { b - a };
    let (i, j) = (in_of(isx, lo, up, p), in_of(isx, lo, up, q)); assert(i == e % W128); assert(j == f % W128); let cc = if act { c } else { 0 };
    let x = l_mod_q(e, W128); reveal(wadd); let y = l_mod_q(g + c, W128); let yy = if act { y } else { 0 };
    assert(f == i + cc + (yy - x) * W128) by (nonlinear_arith) requires i == e + x * W128, f == e + cc + yy * W128;
    l_mod_eq(f, i + cc, yy - x, W128); l_wsub_add(i, j, last, cc);
}
/// moving the current tick past neither end leaves the growth inside
pub proof fn l_in_same(isx: bool, lo: Tick, up: Tick, p: Pool, q: Pool) requires (p.current_tick_index >= lo.index) == (q.current_tick_index >= lo.index), (p.current_tick_index < up.index) == (q.current_tick_index < up.index), glob_of(isx, q) == glob_of(isx, p) ensures in_of(isx, lo, up, q) == in_of(isx, lo, up, p) { reveal(growth_inside); }
/// crossing an end mirrors its counter and leaves the growth inside
pub proof fn l_in_cross(isx: bool, lo: Tick, lo2: Tick, up: Tick, up2: Tick, p: Pool, q: Pool, at_lo: bool)
    requires lo.index < up.index, lo2.index == lo.index, up2.index == up.index, glob_of(isx, q) == glob_of(isx, p),
        if at_lo { up2 == up && out_of(isx, lo2) == wsub(glob_of(isx, p), out_of(isx, lo)) && (p.current_tick_index >= lo.index) != (q.current_tick_index >= lo.index) && p.current_tick_index < up.index && q.current_tick_index < up.index }
        else { lo2 == lo && out_of(isx, up2) == wsub(glob_of(isx, p), out_of(isx, up)) && (p.current_tick_index < up.index) != (q.current_tick_index < up.index) && p.current_tick_index >= lo.index && q.current_tick_index >= lo.index }
    ensures in_of(isx, lo2, up2, q) == in_of(isx, lo, up, p)
{
    let (l, u, a, b, c, g) = (lo.index as int, up.index as int, out_of(isx, lo), out_of(isx, up), p.current_tick_index as int, glob_of(isx, p)); let (a2, b2, c2) = (out_of(isx, lo2), out_of(isx, up2), q.current_tick_index as int);
    l_inside_closed(l, a, u, b, c, g); l_inside_closed(l, a2, u, b2, c2, g); reveal(wsub); let x = l_mod_q(g - a, W128); let y = l_mod_q(g - b, W128);
    let e = if c < l { a - b } else if c < u { g - a - b } else { b - a }; let f = if c2 < l { a2 - b2 } else if c2 < u { g - a2 - b2 } else { b2 - a2 };
    let d = if at_lo { if c2 < l { x } else { -x } } else { if c2 < u { -y } else { y } };
    assert(f == e + d * W128) by { assert((-x) * W128 == -(x * W128)) by (nonlinear_arith); assert((-y) * W128 == -(y * W128)) by (nonlinear_arith); }
    l_mod_eq(f, e, d, W128);
}
// ---- the four things a round of a swap does
pub open spec fn reach2(a: Invariant, k: PoolKey, c: int, xy: bool, b: int, n: int) -> bool {
    tick_ok(b) && b % (k.fee_tier.tick_spacing as int) == 0 && if xy { b <= c && clear(a.ticks, k, b, c) && tick_price(b) <= n } else { c < b && clear(a.ticks, k, c, b - 1) && n <= tick_price(b) }
}
/// the price moves: only active positions change, by the worth of their liquidity between the two prices
pub proof fn l_val_move(a: Invariant, k: PoolKey, c: int, xy: bool, b: int, p: int, n: int, isx: bool, z: Position)
    requires a.ticks_wf(), key_ok(k), pos_ok(a.ticks, a.pools, z), z.pool_key == k, reach2(a, k, c, xy, b, n), price_in(k, p, c), on_grid(k, c as i32), tick_ok(c), if xy { n <= p } else { p <= n }
    ensures val(isx, z.liquidity.d(), n, tick_price(z.lower_tick_index as int), tick_price(z.upper_tick_index as int)) == val(isx, z.liquidity.d(), p, tick_price(z.lower_tick_index as int), tick_price(z.upper_tick_index as int)) + (worth(isx, n) - worth(isx, p)) * (af(k, c)(z) as real)
{
    let (lo, up, s, l) = (z.lower_tick_index, z.upper_tick_index, k.fee_tier.tick_spacing as int, z.liquidity.d()); let (pl, pu) = (tick_price(lo as int), tick_price(up as int));
    l_twf(a.ticks, a.tickmap, a.pools, k, lo); l_twf(a.ticks, a.tickmap, a.pools, k, up); assert(thas(a.ticks, k, lo) && thas(a.ticks, k, up));
    l_price_mono(lo as int, up as int); l_price_range(b);
    if c < up { l_step_grid(c, up as int, s); if c + s < up { l_price_mono(c + s, up as int); } if !xy && b < up { l_price_mono(b, up as int); } } else { if up < b { l_price_mono(up as int, b); } if up < c { l_price_mono(up as int, c); } }
    if c < lo { l_step_grid(c, lo as int, s); if c + s < lo { l_price_mono(c + s, lo as int); } if !xy && b < lo { l_price_mono(b, lo as int); } } else { if lo < b { l_price_mono(lo as int, b); } if lo < c { l_price_mono(lo as int, c); } }
    let (x, y, wn, wp, we) = (l as real, af(k, c)(z) as real, worth(isx, n), worth(isx, p), worth(isx, if isx { pu } else { pl }));
    if lo <= c < up { assert(pl <= n <= pu && pl <= p <= pu); assert(x * (wn - we) == x * (wp - we) + (wn - wp) * x) by (nonlinear_arith); }
    else { assert(clampi(n, pl, pu) == clampi(p, pl, pu)); assert((wn - wp) * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn l_claims_price(a: Invariant, k: PoolKey, xy: bool, b: int, p: Pool, q: Pool, t: TM, isx: bool)
    requires a.wf(), key_ok(k), reach2(a, k, p.current_tick_index as int, xy, b, q.sqrt_price.d()), price_in(k, p.sqrt_price.d(), p.current_tick_index as int), on_grid(k, p.current_tick_index), if xy { q.sqrt_price.d() <= p.sqrt_price.d() } else { p.sqrt_price.d() <= q.sqrt_price.d() },
        q == (Pool { sqrt_price: q.sqrt_price, ..p }), p.liquidity.d() == msum(a.positions.pm(), af(k, p.current_tick_index as int))
    ensures claims(isx, k, a.positions.pm(), q, t) <= claims(isx, k, a.positions.pm(), p, t) + (worth(isx, q.sqrt_price.d()) - worth(isx, p.sqrt_price.d())) * (p.liquidity.d() as real)
{
    let m = a.positions.pm(); let c = p.current_tick_index as int; let (pp, n) = (p.sqrt_price.d(), q.sqrt_price.d()); let v = worth(isx, n) - worth(isx, pp); let (f, g, h) = (cf(isx, k, q, t), cf(isx, k, p, t), af(k, c));
    assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) implies f(x, m[x]) <= g(x, m[x]) + v * (h(m[x]) as real) by {
        let z = m[x]; l_sums_pos(m, a.ticks, a.pools, x); assert(v * 0real == 0real) by (nonlinear_arith);
        if z.pool_key == k { l_val_move(a, k, c, xy, b, pp, n, isx, z); l_in_same(isx, t[(k, z.lower_tick_index)], t[(k, z.upper_tick_index)], p, q); } }
    l_rsum_add(m, f, g, h, v);
}
/// a fee is booked: the claims on that token grow by no more than the fee
pub proof fn l_claims_fee(a: Invariant, k: PoolKey, xy: bool, fee: int, pf: int, p: Pool, q: Pool, t: TM, isx: bool)
    requires a.wf(), at_index(a, k, t), fee_booked(p, q, fee, xy, pf), pf * fee <= fee * E12, pf >= 0, fee >= 0, p.liquidity.d() >= 0, p.liquidity.d() == msum(a.positions.pm(), af(k, p.current_tick_index as int))
    ensures claims(isx, k, a.positions.pm(), q, t) <= claims(isx, k, a.positions.pm(), p, t) + (if isx == xy { fee as real } else { 0real })
{
    reveal(fee_booked); reveal(fee_growth); let m = a.positions.pm(); let (f, g, h) = (cf(isx, k, q, t), cf(isx, k, p, t), af(k, p.current_tick_index as int)); let l = p.liquidity.d();
    let booked = isx == xy && fee > 0 && l > 0; l_pshare(fee, pf); let s = pshare(fee, pf); assert(pf * fee == fee * pf) by (nonlinear_arith); assert(s <= fee) by (nonlinear_arith) requires s * E12 < fee * pf + E12, fee * pf <= fee * E12, E12 == 1000000000000;
    let c = if booked { fee_growth(l, fee - s) } else { 0 };
    let w = (fee - s) * E28 * 100000; assert(w == (fee - s) * E33) by (nonlinear_arith) requires w == (fee - s) * E28 * 100000, E28 * 100000 == E33; assert((fee - s) * E33 >= 0) by (nonlinear_arith) requires s <= fee, E33 > 0;
    if l > 0 { l_fdiv(w, l); }
    let v = (c as real) / (E33 as real); assert(0real / (E33 as real) == 0real) by (nonlinear_arith) requires E33 as real > 0real;
    assert(glob_of(isx, q) == wadd(glob_of(isx, p), c) || c == 0 && glob_of(isx, q) == glob_of(isx, p)) ;
    assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) implies f(x, m[x]) <= g(x, m[x]) + v * (h(m[x]) as real) by {
        let z = m[x]; l_sums_pos(m, a.ticks, a.pools, x); assert(v * 0real == 0real) by (nonlinear_arith);
        if z.pool_key == k {
            let (lo, up) = (t[(k, z.lower_tick_index)], t[(k, z.upper_tick_index)]); assert(thas(a.ticks, k, z.lower_tick_index) && thas(a.ticks, k, z.upper_tick_index));
            if booked { let act = lo.index <= p.current_tick_index < up.index; let last = last_of(isx, z); l_in_fee(isx, lo, up, p, q, last, c); let (i, j) = (wsub(in_of(isx, lo, up, p), last), wsub(in_of(isx, lo, up, q), last)); if act { l_gain(v, j, z.liquidity.d(), i, c); } else { l_gain(0real, j, z.liquidity.d(), i, 0); let y = z.liquidity.d() as real; assert(0real * y == 0real) by (nonlinear_arith); } }
            else { l_in_same(isx, lo, up, p, q); assert(v == 0real); let y = h(z) as real; assert(v * y == 0real) by (nonlinear_arith) requires v == 0real; } } }
    l_rsum_add(m, f, g, h, v);
    l_rdiv(c as real, E33 as real);
    let (e, lr) = (E33 as real, l as real); let r = v * lr; assert(r * e == (c as real) * lr) by (nonlinear_arith) requires r == v * lr, v * e == c as real; l_rmul_eq(c, l, c as real, lr);
    if booked { assert(c * l <= (fee - s) * E33); l_rmul_eq(fee - s, E33, (fee - s) as real, e); l_rcancel((fee - s) as real, r, e); }
    else { assert(c * l == 0) by (nonlinear_arith) requires c == 0; l_rcancel(0real, r, e); assert(0real * e == 0real) by (nonlinear_arith); }
}
/// the current tick moves over no stored one: nothing changes
pub proof fn l_claims_tick(a: Invariant, k: PoolKey, p: Pool, q: Pool, t: TM, isx: bool)
    requires a.wf(), at_index(a, k, t), q == (Pool { current_tick_index: q.current_tick_index, ..p }), ({ let (c, d) = (p.current_tick_index as int, q.current_tick_index as int); if d <= c { clear(a.ticks, k, d, c) } else { clear(a.ticks, k, c, d) } })
    ensures claims(isx, k, a.positions.pm(), q, t) <= claims(isx, k, a.positions.pm(), p, t)
{
    let m = a.positions.pm(); let (f, g) = (cf(isx, k, q, t), cf(isx, k, p, t));
    assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) implies f(x, m[x]) <= g(x, m[x]) by { let z = m[x]; l_sums_pos(m, a.ticks, a.pools, x);
        if z.pool_key == k { assert(thas(a.ticks, k, z.lower_tick_index) && thas(a.ticks, k, z.upper_tick_index)); l_in_same(isx, t[(k, z.lower_tick_index)], t[(k, z.upper_tick_index)], p, q); } }
    l_rsum_le(m, m, f, g);
}
/// the current tick moves over one stored tick, which is crossed: nothing changes
pub proof fn l_claims_cross(a: Invariant, k: PoolKey, x: i32, u: Tick, p: Pool, q: Pool, t: TM, isx: bool)
    requires a.wf(), key_ok(k), at_index(a, k, t), thas(a.ticks, k, x), tick_after_cross(t[(k, x)], u, p, now() as int), q == (Pool { current_tick_index: q.current_tick_index, liquidity: q.liquidity, last_timestamp: q.last_timestamp, ..p }), on_grid(k, p.current_tick_index), on_grid(k, q.current_tick_index),
        ({ let (c, d) = (p.current_tick_index as int, q.current_tick_index as int); (d < x <= c && clear(a.ticks, k, d, x - 1) && clear(a.ticks, k, x as int, c)) || (c < x <= d && clear(a.ticks, k, c, x - 1) && clear(a.ticks, k, x as int, d)) })
    ensures claims(isx, k, a.positions.pm(), q, t.insert((k, x), u)) <= claims(isx, k, a.positions.pm(), p, t), at_index(a, k, t.insert((k, x), u))
{
    let m = a.positions.pm(); let t2 = t.insert((k, x), u); let (f, g) = (cf(isx, k, q, t2), cf(isx, k, p, t));
    assert forall|e: (ActorId, u32)| #[trigger] inr(m, e) implies f(e, m[e]) <= g(e, m[e]) by { let z = m[e]; l_sums_pos(m, a.ticks, a.pools, e);
        if z.pool_key == k { let (i, j) = (z.lower_tick_index, z.upper_tick_index); assert(thas(a.ticks, k, i) && thas(a.ticks, k, j));
            let (lo, up, lo2, up2) = (t[(k, i)], t[(k, j)], t2[(k, i)], t2[(k, j)]); assert(lo.index == i && up.index == j);
            if i == x { l_in_cross(isx, lo, lo2, up, up2, p, q, true); } else if j == x { l_in_cross(isx, lo, lo2, up, up2, p, q, false); } else { l_in_same(isx, lo, up, p, q); } } }
    l_rsum_le(m, m, f, g);
}
