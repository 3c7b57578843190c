// ---- what a pool owes: protocol fees, and per position the fees due and the exact amount its liquidity is worth at the price (real numbers)
pub open spec fn rsum<K, V>(m: Map<K, V>, f: spec_fn(K, V) -> real) -> real decreases m.dom().len() {
    if m.dom().len() == 0 { 0real } else { let x = m.dom().choose(); if m.dom().contains(x) { f(x, m[x]) + rsum(m.remove(x), f) } else { 0real } }
}
pub open spec fn inr<K, V>(m: Map<K, V>, x: K) -> bool { m.dom().contains(x) }
pub proof fn l_rsum_take<K, V>(m: Map<K, V>, f: spec_fn(K, V) -> real, x: K) requires m.dom().contains(x) ensures rsum(m, f) == f(x, m[x]) + rsum(m.remove(x), f) decreases m.dom().len() {
    let c = m.dom().choose(); assert(m.dom().contains(c)); assert(m.dom().len() > 0);
    assert(m.remove(c).dom() =~= m.dom().remove(c)); assert(m.remove(x).dom() =~= m.dom().remove(x));
    if c != x { l_rsum_take(m.remove(c), f, x); l_rsum_take(m.remove(x), f, c); assert(m.remove(c).remove(x) =~= m.remove(x).remove(c)); }
}
pub proof fn l_rsum_new<K, V>(m: Map<K, V>, f: spec_fn(K, V) -> real, x: K, v: V) requires !m.dom().contains(x) ensures rsum(m.insert(x, v), f) == rsum(m, f) + f(x, v) { l_rsum_take(m.insert(x, v), f, x); assert(m.insert(x, v).remove(x) =~= m); }
pub proof fn l_rsum_set<K, V>(m: Map<K, V>, f: spec_fn(K, V) -> real, x: K, v: V) requires m.dom().contains(x) ensures rsum(m.insert(x, v), f) == rsum(m, f) - f(x, m[x]) + f(x, v) {
    l_rsum_take(m, f, x); l_rsum_new(m.remove(x), f, x, v); assert(m.remove(x).insert(x, v) =~= m.insert(x, v));
}
pub proof fn l_rsum_le<K, V>(m: Map<K, V>, n: Map<K, V>, f: spec_fn(K, V) -> real, g: spec_fn(K, V) -> real) requires m.dom() == n.dom(), forall|x: K| #[trigger] inr(m, x) ==> f(x, m[x]) <= g(x, n[x]) ensures rsum(m, f) <= rsum(n, g) decreases m.dom().len() {
    if m.dom().len() > 0 { let c = m.dom().choose(); if m.dom().contains(c) { let (m2, n2) = (m.remove(c), n.remove(c)); assert(inr(m, c)); assert(m2.dom() =~= m.dom().remove(c)); assert(n2.dom() =~= m.dom().remove(c));
        assert forall|x: K| #[trigger] inr(m2, x) implies f(x, m2[x]) <= g(x, n2[x]) by { assert(inr(m, x)); } l_rsum_le(m2, n2, f, g); } }
}
pub type PF = spec_fn((ActorId, u32), Position) -> real;
pub proof fn l_rsum_add(m: PM, f: PF, g: PF, h: spec_fn(Position) -> int, v: real)
    requires forall|x: (ActorId, u32)| #[trigger] inr(m, x) ==> f(x, m[x]) <= g(x, m[x]) + v * (h(m[x]) as real) ensures rsum(m, f) <= rsum(m, g) + v * (msum(m, h) as real) decreases m.dom().len()
{
    if m.dom().len() > 0 { let c = m.dom().choose(); if m.dom().contains(c) { let n = m.remove(c); assert(inr(m, c)); assert(n.dom() =~= m.dom().remove(c)); assert forall|x: (ActorId, u32)| #[trigger] inr(n, x) implies f(x, n[x]) <= g(x, n[x]) + v * (h(n[x]) as real) by { assert(inr(m, x)); } l_rsum_add(n, f, g, h, v);
        let (a, b) = (h(m[c]) as real, msum(n, h) as real); assert(v * (a + b) == v * a + v * b) by (nonlinear_arith); assert(msum(m, h) == h(m[c]) + msum(n, h)); } }
    else { assert(v * 0real == 0real) by (nonlinear_arith); }
}
// ---- arithmetic on reals
pub proof fn l_rmul(a: int, b: int) ensures (a * b) as real == (a as real) * (b as real) { assert((a * b) as real == (a as real) * (b as real)) by (nonlinear_arith); }
pub proof fn l_rdiv(e: real, n: real) requires n > 0real ensures (e / n) * n == e { let u = e / n; assert(u * n == e) by (nonlinear_arith) requires n > 0real, u == e / n; }
pub proof fn l_rpos(t: real, q: real) requires t > 0real, q > 0real ensures t * q > 0real { assert(t * q > 0real) by (nonlinear_arith) requires t > 0real, q > 0real; }
pub proof fn l_rcancel(t: real, x: real, q: real) requires q > 0real ensures t * q >= x * q ==> t >= x { if t * q >= x * q { assert(t >= x) by (nonlinear_arith) requires t * q >= x * q, q > 0real; } }
pub proof fn l_rdiff(x: real, q: real, y: real, l: real, u: real, v: real, n: real, p: real, e: real) requires u * n == e, v * p == e, x == l * (u - v), q == n * p, y == (p - n) * l ensures x * q == y * e {
    assert(u * (n * p) == e * p) by (nonlinear_arith) requires u * n == e;
    assert(v * (n * p) == e * n) by (nonlinear_arith) requires v * p == e;
    assert(l * (u - v) * q == l * (u * q - v * q)) by (nonlinear_arith);
    assert((p - n) * l * e == l * (e * p - e * n)) by (nonlinear_arith);
}
pub proof fn l_rmul_eq(a: int, b: int, t: real, q: real) requires t == a as real, q == b as real ensures (a * b) as real == t * q { l_rmul(a, b); }
pub proof fn l_rscale(x: real, q: real, l: real, u: real, v: real, n: real, p: real) requires u * q == n, v * q == p, x == l * (u - v) ensures x * q == (n - p) * l {
    assert(l * (u - v) * q == l * (u * q - v * q)) by (nonlinear_arith); assert(l * (n - p) == (n - p) * l) by (nonlinear_arith);
}
/// what one unit of liquidity is worth per price, in token x and in token y
pub open spec fn worth(isx: bool, p: int) -> real { if isx { (E19 as real) / (p as real) } else { (p as real) / ((E24 * E5) as real) } }
pub proof fn l_worth_x(t: int, n: int, p: int, l: int) requires n > 0, p > 0
    ensures t * (n * p) * E5 >= (p - n) * l * E24 ==> t as real >= (l as real) * (worth(true, n) - worth(true, p)), t * (n * p) * E5 <= (p - n) * l * E24 ==> t as real <= (l as real) * (worth(true, n) - worth(true, p))
{
    let (a, b, np) = (t * (n * p), (p - n) * l, n * p); assert(a * E5 >= b * E24 ==> a >= b * E19); assert(a * E5 <= b * E24 ==> a <= b * E19);
    let (u, v, e) = (worth(true, n), worth(true, p), E19 as real); let (nr, pr, lr, tr) = (n as real, p as real, l as real, t as real); let (x, q, y) = (lr * (u - v), np as real, b as real);
    l_rdiv(e, nr); l_rdiv(e, pr); l_rmul_eq(n, p, nr, pr); l_rmul_eq(p - n, l, pr - nr, lr); l_rdiff(x, q, y, lr, u, v, nr, pr, e);
    l_rmul_eq(t, np, tr, q); l_rmul_eq(b, E19, y, e); l_rpos(nr, pr); assert(a as real == tr * q); assert((b * E19) as real == x * q);
    l_rcancel(tr, x, q); l_rcancel(x, tr, q);
}
pub proof fn l_worth_y(t: int, n: int, p: int, l: int)
    ensures t * E24 * E5 >= (n - p) * l ==> t as real >= (l as real) * (worth(false, n) - worth(false, p)), t * E24 * E5 <= (n - p) * l ==> t as real <= (l as real) * (worth(false, n) - worth(false, p))
{
    let s = E24 * E5; let q = s as real; let (u, v) = (worth(false, n), worth(false, p)); let (nr, pr, lr, tr) = (n as real, p as real, l as real, t as real); let x = lr * (u - v);
    l_rdiv(nr, q); l_rdiv(pr, q); l_rscale(x, q, lr, u, v, nr, pr); l_rmul_eq(n - p, l, nr - pr, lr);
    l_rmul_eq(t, s, tr, q); assert(t * E24 * E5 == t * s) by (nonlinear_arith) requires s == E24 * E5;
    l_rcancel(tr, x, q); l_rcancel(x, tr, q);
}
pub proof fn l_worth_mono(p: int, q: int) requires 0 < p <= q ensures worth(true, p) >= worth(true, q), worth(false, p) <= worth(false, q) {
    assert(0 * (p * q) * E5 <= (q - p) * 1 * E24) by (nonlinear_arith) requires p <= q, E24 > 0; l_worth_x(0, p, q, 1); assert(0 * E24 * E5 <= (q - p) * 1); l_worth_y(0, q, p, 1);
    assert((1 as real) == 1real); let (a, b) = (worth(true, p) - worth(true, q), worth(false, q) - worth(false, p)); assert(1real * a == a) by (nonlinear_arith); assert(1real * b == b) by (nonlinear_arith);
}
/// a price move from p to n: what is paid in covers what the liquidity gains of that token, what is paid out is covered by what it loses of the other
pub proof fn l_pay(xy: bool, p: int, n: int, l: int, ain: int, aout: int)
    requires p > 0, n > 0, l >= 0, if xy { n <= p } else { p <= n }, covers(p, n, l, xy, ain), within(p, n, l, xy, aout)
    ensures ain as real >= (l as real) * (worth(xy, n) - worth(xy, p)), -(aout as real) >= (l as real) * (worth(!xy, n) - worth(!xy, p))
{
    if xy { assert(adiff(n, p) == p - n); l_worth_x(ain, n, p, l); l_worth_y(aout, p, n, l); } else { assert(adiff(p, n) == n - p); l_worth_y(ain, n, p, l); l_worth_x(aout, p, n, l); }
    let (x, y, z) = (l as real, worth(!xy, n), worth(!xy, p)); assert(x * (y - z) == -(x * (z - y))) by (nonlinear_arith);
}
