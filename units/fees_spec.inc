pub spec const W128: int = 18446744073709551616int * 18446744073709551616int;
pub open spec fn wadd(a: int, b: int) -> int { (a + b) % W128 }
pub open spec fn wsub(a: int, b: int) -> int { (a - b) % W128 }
/// growth per unit of liquidity for a fee; payout of a growth difference
pub open spec fn fee_growth(l: int, fee: int) -> int { fee * E28 * 100000 / l }
pub open spec fn fee_share(g: int, l: int) -> int { g * l / 100000 / E28 }
/// growth inside [lower, upper)
pub open spec fn growth_inside(lower: int, lo: int, upper: int, uo: int, cur: int, g: int) -> int {
    let below = if cur >= lower { lo } else { wsub(g, lo) };
    let above = if cur < upper { uo } else { wsub(g, uo) };
    wsub(wsub(g, below), above)
}
pub proof fn l_mod_shift(a: int, k: int, m: int) requires m > 0 ensures (a + k * m) % m == a % m { vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, a, m); assert(m * k + a == a + k * m) by (nonlinear_arith); }
pub proof fn l_mod_q(a: int, m: int) -> (k: int) requires m > 0 ensures a % m == a + k * m, 0 <= a % m < m {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, m); vstd::arithmetic::div_mod::lemma_mod_bound(a, m);
    let q = a / m; assert(a % m == a + (-q) * m) by (nonlinear_arith) requires a == m * q + a % m; -q
}
pub proof fn l_mod_eq(a: int, b: int, k: int, m: int) requires m > 0, a == b + k * m ensures a % m == b % m { l_mod_shift(b, k, m); }
/// the growth inside is a plain difference modulo the counter width ...
pub proof fn l_inside_closed(lower: int, lo: int, upper: int, uo: int, cur: int, g: int)
    requires lower < upper
    ensures growth_inside(lower, lo, upper, uo, cur, g) == (if cur < lower { lo - uo } else if cur < upper { g - lo - uo } else { uo - lo }) % W128
{
    let below = if cur >= lower { lo } else { wsub(g, lo) };
    let above = if cur < upper { uo } else { wsub(g, uo) };
    let k1 = l_mod_q(g - lo, W128);
    let k2 = l_mod_q(g - uo, W128);
    let k3 = l_mod_q(g - below, W128);
    let e = if cur < lower { lo - uo } else if cur < upper { g - lo - uo } else { uo - lo };
    let s = wsub(g, below) - above;
    let k = k3 - (if cur < lower { k1 } else { 0 }) - (if cur < upper { 0 } else { k2 });
    assert(s == e + k * W128) by (nonlinear_arith) requires s == g - below + k3 * W128 - above, below == (if cur >= lower { lo } else { g - lo + k1 * W128 }), above == (if cur < upper { uo } else { g - uo + k2 * W128 }),
        e == (if cur < lower { lo - uo } else if cur < upper { g - lo - uo } else { uo - lo }), k == k3 - (if cur < lower { k1 } else { 0int }) - (if cur < upper { 0int } else { k2 }), lower < upper;
    l_mod_eq(s, e, k, W128);
}
/// ... and therefore unaffected by wrap-around: true counters and counters reduced modulo the width give the same growth
pub proof fn l_inside_wrap(lower: int, lo: int, upper: int, uo: int, cur: int, g: int)
    requires lower < upper
    ensures growth_inside(lower, lo % W128, upper, uo % W128, cur, g % W128) == growth_inside(lower, lo, upper, uo, cur, g)
{
    l_inside_closed(lower, lo, upper, uo, cur, g); l_inside_closed(lower, lo % W128, upper, uo % W128, cur, g % W128);
    let a = l_mod_q(lo, W128);
    let b = l_mod_q(uo, W128);
    let c = l_mod_q(g, W128);
    let e = if cur < lower { lo - uo } else if cur < upper { g - lo - uo } else { uo - lo };
    let f = if cur < lower { lo % W128 - uo % W128 } else if cur < upper { g % W128 - lo % W128 - uo % W128 } else { uo % W128 - lo % W128 };
    let k = if cur < lower { a - b } else if cur < upper { c - a - b } else { b - a };
    assert(f == e + k * W128) by (nonlinear_arith) requires lo % W128 == lo + a * W128, uo % W128 == uo + b * W128, g % W128 == g + c * W128, k == (if cur < lower { a - b } else if cur < upper { c - a - b } else { b - a }),
        e == (if cur < lower { lo - uo } else if cur < upper { g - lo - uo } else { uo - lo }), f == (if cur < lower { lo % W128 - uo % W128 } else if cur < upper { g % W128 - lo % W128 - uo % W128 } else { uo % W128 - lo % W128 });
    l_mod_eq(f, e, k, W128);
}
/// the positions that share the active liquidity never receive more than the fee that was collected
pub open spec fn sum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s.last() + sum(s.drop_last()) } }
pub open spec fn shares(g: int, s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { fee_share(g, s.last()) + shares(g, s.drop_last()) } }
pub proof fn l_share_le(g: int, l: int) requires g >= 0, l >= 0 ensures fee_share(g, l) * (100000 * E28) <= g * l, fee_share(g, l) >= 0 {
    assert(g * l >= 0) by (nonlinear_arith) requires g >= 0, l >= 0;
    l_fdiv(g * l, 100000); let a = g * l / 100000; l_fdiv(a, E28);
}
pub proof fn l_shares(l: int, fee: int, s: Seq<int>)
    requires l > 0, fee >= 0, sum(s) <= l, forall|i: int| 0 <= i < s.len() ==> s[i] >= 0
    ensures shares(fee_growth(l, fee), s) <= fee
{
    let g = fee_growth(l, fee);
    assert(fee * E28 * 100000 >= 0) by (nonlinear_arith) requires fee >= 0;
    l_fdiv(fee * E28 * 100000, l);
    l_shares_le(g, s);
    let t = shares(g, s);
    assert(g * sum(s) <= g * l) by (nonlinear_arith) requires g >= 0, sum(s) <= l;
    assert(g * l <= fee * (100000 * E28)) by (nonlinear_arith) requires g * l <= fee * E28 * 100000;
    assert(t <= fee) by (nonlinear_arith) requires t * (100000 * E28) <= fee * (100000 * E28), E28 > 0;
}
pub proof fn l_shares_le(g: int, s: Seq<int>) requires g >= 0, forall|i: int| 0 <= i < s.len() ==> s[i] >= 0 ensures shares(g, s) * (100000 * E28) <= g * sum(s) decreases s.len() {
    if s.len() > 0 {
        let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies d[i] >= 0 by { assert(d[i] == s[i]); }
        l_shares_le(g, d); l_share_le(g, s.last());
        let (a, b, c) = (fee_share(g, s.last()), shares(g, d), 100000 * E28);
        assert((a + b) * c == a * c + b * c) by (nonlinear_arith);
        assert(g * (s.last() + sum(d)) == g * s.last() + g * sum(d)) by (nonlinear_arith);
    } else { assert(g * 0 == 0); assert(0 * (100000 * E28) == 0); }
}

/// order and grouping of wrapping sums and differences do not matter
pub proof fn l_wrap_algebra()
    ensures forall|g: int, a: int, b: int| #[trigger] wsub(g, wadd(a, b)) == wsub(wsub(g, a), b),
        forall|a: int, b: int| #[trigger] wadd(a, b) == wadd(b, a),
        forall|g: int, a: int, b: int| #[trigger] wsub(wsub(g, a), b) == wsub(wsub(g, b), a)
{
    assert forall|g: int, a: int, b: int| #[trigger] wsub(g, wadd(a, b)) == wsub(wsub(g, a), b) by { l_wrap2(g, a, b); }
    assert forall|g: int, a: int, b: int| #[trigger] wsub(wsub(g, a), b) == wsub(wsub(g, b), a) by { l_wrap2(g, a, b); l_wrap2(g, b, a); }
}
pub proof fn l_wrap2(g: int, a: int, b: int) ensures wsub(g, wadd(a, b)) == (g - a - b) % W128, wsub(wsub(g, a), b) == (g - a - b) % W128 {
    let k = l_mod_q(a + b, W128); assert(wadd(a, b) == a + b + k * W128);
    l_mod_shift(g - a - b, -k, W128); assert(g - wadd(a, b) == (g - a - b) + (-k) * W128) by (nonlinear_arith) requires wadd(a, b) == a + b + k * W128;
    let j = l_mod_q(g - a, W128); l_mod_shift(g - a - b, j, W128); assert(wsub(g, a) == g - a + j * W128);
}
