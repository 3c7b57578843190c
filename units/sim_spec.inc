// ---- a swap as a chain of rounds over integers: what the contract computes and what the client library has to repeat
pub struct Env { pub bits: spec_fn(int) -> bool, pub nets: spec_fn(int) -> int, pub s: int, pub f: int, pub xy: bool, pub by: bool, pub lim: int }
/// before or after a round: the tick, price and liquidity of the pool, what is left, the totals, the ticks crossed
pub struct Q { pub c: int, pub p: int, pub l: int, pub rem: int, pub tin: int, pub tout: int, pub fee: int, pub ts: Seq<int> }
/// the numbers of one round: where it has to stop, with the tick there, and the step
pub struct W { pub sl: int, pub x: Option<(int, bool)>, pub n: int, pub ain: int, pub aout: int, pub fa: int }
/// the bitmap as a set of indices, and the search over it
pub open spec fn bits_of(m: BM, k: BK) -> spec_fn(int) -> bool { |i: int| set_at(m, k, i) }
pub open spec fn bunset(b: spec_fn(int) -> bool, lo: int, hi: int) -> bool { forall|j: int| lo <= j < hi ==> !#[trigger] b(j) }
pub open spec fn bnear(b: spec_fn(int) -> bool, t: int, s: int, up: bool, x: int) -> bool {
    x % s == 0 && b(idx(x, s)) && (if up { t < x <= limit_up(t, s) && bunset(b, idx(t, s) + 1, idx(x, s)) } else { limit_down(t, s) <= x <= t && bunset(b, idx(x, s) + 1, idx(t, s) + 1) })
}
pub open spec fn bnone(b: spec_fn(int) -> bool, t: int, s: int, up: bool) -> bool { if up { bunset(b, idx(t, s) + 1, idx(limit_up(t, s), s) + 1) } else { bunset(b, idx(limit_down(t, s), s), idx(t, s) + 1) } }
pub proof fn l_bunset(m: BM, k: BK, lo: int, hi: int) ensures bunset(bits_of(m, k), lo, hi) == between_unset(m, k, lo, hi) {
    let b = bits_of(m, k); assert(forall|j: int| #[trigger] b(j) == set_at(m, k, j)); if bunset(b, lo, hi) { assert forall|j: int| lo <= j < hi implies !#[trigger] set_at(m, k, j) by { assert(!b(j)); } } if between_unset(m, k, lo, hi) { assert forall|j: int| lo <= j < hi implies !#[trigger] b(j) by { assert(!set_at(m, k, j)); } }
}
pub proof fn l_bits(m: BM, k: BK, t: int, s: int, xy: bool) ensures none_near(m, k, t, s, !xy) == bnone(bits_of(m, k), t, s, !xy), forall|x: int| #[trigger] tnear(m, k, t, s, xy, x) == bfind(bits_of(m, k), t, s, xy, x) {
    let b = bits_of(m, k); assert(forall|j: int| #[trigger] b(j) == set_at(m, k, j)); l_bunset(m, k, idx(t, s) + 1, idx(limit_up(t, s), s) + 1); l_bunset(m, k, idx(limit_down(t, s), s), idx(t, s) + 1);
    assert forall|x: int| #[trigger] tnear(m, k, t, s, xy, x) == bfind(b, t, s, xy, x) by { l_bunset(m, k, idx(t, s) + 1, idx(x, s)); l_bunset(m, k, idx(x, s) + 1, idx(t, s) + 1); }
}
pub open spec fn bfind(b: spec_fn(int) -> bool, t: int, s: int, xy: bool, x: int) -> bool { bnear(b, t, s, !xy, x) }
/// there is one nearest marked tick, or none
pub proof fn l_one_near(b: spec_fn(int) -> bool, t: int, s: int, xy: bool, x: int, y: int)
    requires 0 < s <= 65535, tick_ok(t), t % s == 0, bfind(b, t, s, xy, y) ensures !bnone(b, t, s, !xy), bfind(b, t, s, xy, x) ==> x == y
{ l_near_le(b, t, s, !xy, x, y); if bfind(b, t, s, xy, x) { l_near_le(b, t, s, !xy, y, x); } }
pub proof fn l_near_le(b: spec_fn(int) -> bool, t: int, s: int, up: bool, x: int, y: int)
    requires s > 0, t % s == 0, y % s == 0, b(idx(y, s)), if up { t < y <= limit_up(t, s) } else { limit_down(t, s) <= y <= t }, 0 < s <= 65535, tick_ok(t)
    ensures !bnone(b, t, s, up), bnear(b, t, s, up, x) ==> (if up { x <= y } else { x >= y })
{ l_limits(t, s); l_idx_order(t, y, s); l_idx_order(y, t, s); l_idx_order(y, limit_up(t, s), s); l_idx_order(limit_up(t, s), y, s); l_idx_order(limit_down(t, s), y, s); l_idx_order(y, limit_down(t, s), s); assert(b(idx(y, s)));
  if bnear(b, t, s, up, x) { l_idx_order(x, y, s); l_idx_order(y, x, s); } }
pub open spec fn far_end(e: Env, c: int) -> int { if e.xy { limit_down(c, e.s) } else { limit_up(c, e.s) } }
pub open spec fn look(e: Env, c: int, sl: int, x: Option<(int, bool)>) -> bool {
    match x {
        Some((i, true)) => bfind(e.bits, c, e.s, e.xy, i) && sl == tick_price(i) && closer(e.xy, e.lim, i, true),
        Some((i, false)) => bnone(e.bits, c, e.s, !e.xy) && i == far_end(e, c) && i != c && sl == tick_price(i) && closer(e.xy, e.lim, i, false),
        None => sl == e.lim && ((exists|i: int| #[trigger] bfind(e.bits, c, e.s, e.xy, i) && !closer(e.xy, e.lim, i, true)) || (bnone(e.bits, c, e.s, !e.xy) && far_end(e, c) != c && !closer(e.xy, e.lim, far_end(e, c), false))),
    }
}
pub open spec fn dry(e: Env, c: int) -> bool { bnone(e.bits, c, e.s, !e.xy) && far_end(e, c) == c }
pub open spec fn stepw(e: Env, q: Q, w: W) -> bool { step_is(q.p, w.sl, q.l, q.rem, e.by, e.f, w.n, w.ain, w.aout, w.fa) }
pub open spec fn left(e: Env, q: Q, w: W) -> int { q.rem - (if e.by { w.ain + w.fa } else { w.aout }) }
pub open spec fn at_tick(w: W) -> bool { w.x is Some && w.sl == w.n }
pub open spec fn goes_on(e: Env, q: Q, w: W) -> bool { q.l == 0 || step_price(w.n, q.l, left(e, q, w), e.f, e.by, e.xy) != w.n }
pub open spec fn marked(w: W) -> bool { w.x is Some && (w.x->0).1 }
pub open spec fn crosses(e: Env, q: Q, w: W) -> bool { at_tick(w) && marked(w) && (!e.xy || goes_on(e, q, w)) }
pub open spec fn burns(e: Env, q: Q, w: W) -> bool { at_tick(w) && marked(w) && !crosses(e, q, w) }
pub open spec fn cnet(e: Env, c: int, i: int) -> int { if c >= i { -(e.nets)(i) } else { (e.nets)(i) } }
pub open spec fn after(e: Env, q: Q, w: W) -> Q {
    let r = left(e, q, w); let i = (w.x->0).0;
    Q { c: if !at_tick(w) { stop_tick(q.c, falign(sel(w.n), e.s), e.xy) } else if e.xy && goes_on(e, q, w) { i - e.s } else { i }, p: w.n, l: if crosses(e, q, w) { q.l + cnet(e, q.c, i) } else { q.l },
        rem: if burns(e, q, w) { 0 } else { r }, tin: q.tin + w.ain + w.fa + (if burns(e, q, w) && e.by { r } else { 0 }), tout: q.tout + w.aout, fee: q.fee + w.fa, ts: if crosses(e, q, w) { q.ts.push(i) } else { q.ts } }
}
pub open spec fn at_end(e: Env, c: int) -> bool { if e.xy { c <= min_tick_of(e.s) } else { c >= max_tick_of(e.s) } }
/// no number of the round is out of the contract's reach
pub open spec fn fine(e: Env, q: Q, w: W) -> bool {
    &&& !step_err(q.p, w.sl, q.l, q.rem, e.by, e.f)
    &&& (at_tick(w) ==> !step_price_err(w.n, q.l, left(e, q, w), e.f, e.by, e.xy))
    &&& (!at_tick(w) ==> !sel_err(w.n, e.s))
    &&& (crosses(e, q, w) ==> 0 <= q.l + cnet(e, q.c, (w.x->0).0) <= U256::umax())
}
/// the price limit is reached too early, or the end of the range
pub open spec fn halts(e: Env, q: Q, w: W) -> bool { (w.n == e.lim && left(e, q, w) != 0) || at_end(e, after(e, q, w).c) }
pub open spec fn qround(e: Env, q: Q, w: W, q2: Q) -> bool { q.rem != 0 && look(e, q.c, w.sl, w.x) && stepw(e, q, w) && w.ain >= 0 && w.aout >= 0 && w.fa >= 0 && (q.l != 0 && e.by ==> e.f <= E12) && fine(e, q, w) && !halts(e, q, w) && q2 == after(e, q, w) }
pub open spec fn rounds(e: Env, q0: Q, tr: Seq<Q>, ws: Seq<W>) -> bool { tr.len() == ws.len() + 1 && tr[0] == q0 && forall|i: int| 0 <= i < ws.len() ==> qround(e, #[trigger] tr[i], ws[i], tr[i + 1]) }
/// the contract can compute every round it gets to
pub open spec fn smooth(e: Env, q0: Q) -> bool { forall|tr: Seq<Q>, ws: Seq<W>, w: W| #[trigger] rounds(e, q0, tr, ws) && tr.last().rem != 0 && look(e, tr.last().c, w.sl, w.x) && stepw(e, tr.last(), w) ==> #[trigger] fine(e, tr.last(), w) }
/// the swap fails in this round for want of liquidity or for its limit
pub open spec fn dead(e: Env, q: Q) -> bool { q.rem != 0 && (dry(e, q.c) || exists|w: W| look(e, q.c, w.sl, w.x) && stepw(e, q, w) && #[trigger] halts(e, q, w)) }
// ---- what holds before every round
pub open spec fn env_ok(e: Env) -> bool { 1 <= e.s <= 100 && 0 <= e.f && if e.xy { e.lim <= MAX_SQRT_PRICE } else { e.lim >= MIN_SQRT_PRICE } }
pub open spec fn sound(e: Env, q: Q) -> bool {
    &&& tick_ok(q.c) && q.c % e.s == 0 && in_range(q.p) && tick_price(q.c) <= q.p && (tick_ok(q.c + e.s) ==> q.p <= tick_price(q.c + e.s))
    &&& q.l >= 0 && q.rem >= 0 && (q.rem != 0 ==> if e.xy { e.lim < q.p } else { q.p < e.lim })
}
pub proof fn l_look(e: Env, q: Q, sl: int, x: Option<(int, bool)>)
    requires env_ok(e), sound(e, q), q.rem != 0, look(e, q.c, sl, x)
    ensures in_range(sl), sl >= E12, q.p >= E12, if e.xy { e.lim <= sl <= q.p } else { q.p <= sl <= e.lim }, match x { Some((i, h)) => tick_ok(i) && i % e.s == 0 && (h ==> (e.bits)(idx(i, e.s))) && (if e.xy { i <= q.c } else { q.c + e.s <= i }) && sl == tick_price(i), None => sl == e.lim }
{
    let (c, s) = (q.c, e.s); l_limits(c, s); l_price_range(c); l_price_ends();
    let b = match x { Some((i, _)) => i, None => if exists|i: int| #[trigger] bfind(e.bits, c, s, e.xy, i) && !closer(e.xy, e.lim, i, true) { choose|i: int| #[trigger] bfind(e.bits, c, s, e.xy, i) && !closer(e.xy, e.lim, i, true) } else { far_end(e, c) } };
    assert(tick_ok(b) && b % s == 0); l_price_range(b);
    if e.xy { if b < c { l_price_mono(b, c); } } else { l_grid_step(c, b, s); if c + s < b { l_price_mono(c + s, b); } }
}
pub proof fn l_grid_step(c: int, b: int, s: int) requires s > 0, c % s == 0, b % s == 0, c < b ensures c + s <= b { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c, s); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, s); let (p, q) = (c / s, b / s);
    assert(p < q) by (nonlinear_arith) requires s * p < s * q, s > 0; assert(s * (p + 1) <= s * q) by (nonlinear_arith) requires p + 1 <= q, s > 0; assert(s * (p + 1) == s * p + s) by (nonlinear_arith); }
pub proof fn l_moves(p: int, l: int, a: int, xy: bool) requires p > 0, l > 0, a > 0, !xy ==> l * E19 - p * a > 0 ensures if xy { next_out(p, l, a, xy) < p } else { next_out(p, l, a, xy) > p } {
    reveal(next_out); reveal(next_x); reveal(next_y);
    if xy { l_cdiv((a * E24) * E24, l * E19); let q = cdiv((a * E24) * E24, l * E19); assert(q >= 1) by (nonlinear_arith) requires q * (l * E19) >= (a * E24) * E24, (a * E24) * E24 > 0, l * E19 > 0; }
    else {
        let pl = p * l; let nom = cdiv(pl, E5) * E24; let den = l * E19 - p * a; assert(pl > 0) by (nonlinear_arith) requires pl == p * l, p > 0, l > 0; l_cdiv(pl, E5); l_cdiv(nom, den); let n = cdiv(nom, den);
        assert(p * den < pl * E19) by (nonlinear_arith) requires den == l * E19 - p * a, pl == p * l, p > 0, a > 0;
        assert(nom >= pl * E19); assert(n > p) by (nonlinear_arith) requires n * den >= nom, nom > p * den, den > 0;
    }
}
/// what a step leaves and where it ends
pub proof fn l_stepw(e: Env, q: Q, w: W)
    requires env_ok(e), sound(e, q), q.rem != 0, look(e, q.c, w.sl, w.x), stepw(e, q, w), w.fa >= 0, q.l != 0 && e.by ==> e.f <= E12, !step_err(q.p, w.sl, q.l, q.rem, e.by, e.f)
    ensures left(e, q, w) >= 0, if e.xy { w.sl <= w.n <= q.p } else { q.p <= w.n <= w.sl }, in_range(w.n)
{
    l_look(e, q, w.sl, w.x); l_step_fn(q.p, w.sl, q.l, q.rem, e.by, e.f); reveal(step_ok);
}
pub proof fn l_keeps(e: Env, q: Q, w: W, q2: Q)
    requires env_ok(e), sound(e, q), qround(e, q, w, q2)
    ensures sound(e, q2)
{
    let (c, s, n) = (q.c, e.s, w.n); l_look(e, q, w.sl, w.x); l_stepw(e, q, w); l_min_max(s); l_price_range(c); l_price_ends();
    if !at_tick(w) {
        l_tick_at_price(n, s); let t = falign(sel(n), s); let d = q2.c;
        if e.xy { if c < t { assert(d == c); } } else { assert(tick_price(c) <= n); assert(c <= t); }
        assert(tick_ok(d));
        if e.xy && c < t { if tick_ok(t) { l_price_mono(c, t); } }
    } else {
        let i = (w.x->0).0; assert((i - s) % s == 0) by { vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(i, s); } l_price_range(i);
        if e.xy { if goes_on(e, q, w) { l_price_mono(i - s, i); } else { if tick_ok(i + s) { l_price_mono(i, i + s); } } }
        else { if tick_ok(i + s) { l_price_mono(i, i + s); } }
    }

}
pub proof fn l_min_max(s: int) requires 1 <= s <= 100 ensures tick_ok(min_tick_of(s)), tick_ok(max_tick_of(s)) { l_limits(0, s); }
pub proof fn l_more(e: Env, q0: Q, tr: Seq<Q>, ws: Seq<W>, w: W, q2: Q) requires rounds(e, q0, tr, ws), qround(e, tr.last(), w, q2) ensures rounds(e, q0, tr.push(q2), ws.push(w)) {
    let (t2, w2) = (tr.push(q2), ws.push(w)); assert forall|i: int| 0 <= i < w2.len() implies qround(e, #[trigger] t2[i], w2[i], t2[i + 1]) by { if i < ws.len() { assert(t2[i] == tr[i] && t2[i + 1] == tr[i + 1] && w2[i] == ws[i]); } else { assert(t2[i] == tr.last()); } }
}
// ---- the rounds are determined by where they start
pub proof fn l_look_same(e: Env, c: int, sl: int, x: Option<(int, bool)>, sl2: int, x2: Option<(int, bool)>)
    requires 1 <= e.s <= 100, tick_ok(c), c % e.s == 0, look(e, c, sl, x) ensures !dry(e, c), look(e, c, sl2, x2) ==> sl == sl2 && x == x2
{
    if exists|i: int| #[trigger] bfind(e.bits, c, e.s, e.xy, i) { let y = choose|i: int| #[trigger] bfind(e.bits, c, e.s, e.xy, i);
        assert forall|i: int| #[trigger] bfind(e.bits, c, e.s, e.xy, i) implies i == y by { l_one_near(e.bits, c, e.s, e.xy, i, y); } l_one_near(e.bits, c, e.s, e.xy, y, y); }
}
pub proof fn l_round_same(e: Env, q: Q, w: W, q2: Q, v: W) requires env_ok(e), sound(e, q), qround(e, q, w, q2) ensures look(e, q.c, v.sl, v.x) && stepw(e, q, v) ==> v == w { l_look_same(e, q.c, w.sl, w.x, v.sl, v.x); }
/// every run is the beginning of one that comes to its end
pub proof fn l_prefix(e: Env, q0: Q, tr: Seq<Q>, ws: Seq<W>, tr2: Seq<Q>, ws2: Seq<W>)
    requires env_ok(e), sound(e, q0), rounds(e, q0, tr, ws), rounds(e, q0, tr2, ws2), tr2.last().rem == 0
    ensures ws.len() <= ws2.len(), forall|i: int| 0 <= i <= ws.len() ==> #[trigger] tr[i] == tr2[i], forall|i: int| 0 <= i <= ws.len() ==> sound(e, #[trigger] tr[i])
    decreases ws.len()
{
    if ws.len() > 0 {
        let n = ws.len() - 1; let (t1, w1) = (tr.drop_last(), ws.drop_last());
        assert forall|i: int| 0 <= i < w1.len() implies qround(e, #[trigger] t1[i], w1[i], t1[i + 1]) by { assert(qround(e, tr[i], ws[i], tr[i + 1])); }
        l_prefix(e, q0, t1, w1, tr2, ws2);
        assert(tr[n] == t1[n] && t1[n] == tr2[n]); assert(qround(e, tr[n], ws[n], tr[n + 1])); assert(sound(e, t1[n]));
        assert(n < ws2.len());
        assert(qround(e, tr2[n], ws2[n], tr2[n + 1])); l_round_same(e, tr[n], ws[n], tr[n + 1], ws2[n]); l_keeps(e, tr[n], ws[n], tr[n + 1]);
        assert forall|i: int| 0 <= i <= ws.len() implies #[trigger] tr[i] == tr2[i] by { if i <= n { assert(t1[i] == tr[i]); } }
        assert forall|i: int| 0 <= i <= ws.len() implies sound(e, #[trigger] tr[i]) by { if i <= n { assert(t1[i] == tr[i]); } }
    }
}
/// a run that comes to its end never meets a number out of reach, and fails nowhere
pub proof fn l_smooth(e: Env, q0: Q, tr2: Seq<Q>, ws2: Seq<W>) requires env_ok(e), sound(e, q0), rounds(e, q0, tr2, ws2), tr2.last().rem == 0
    ensures smooth(e, q0), forall|tr: Seq<Q>, ws: Seq<W>| #[trigger] rounds(e, q0, tr, ws) ==> !dead(e, tr.last())
{
    assert forall|tr: Seq<Q>, ws: Seq<W>, w: W| #[trigger] rounds(e, q0, tr, ws) && tr.last().rem != 0 && look(e, tr.last().c, w.sl, w.x) && stepw(e, tr.last(), w) implies #[trigger] fine(e, tr.last(), w) by {
        l_prefix(e, q0, tr, ws, tr2, ws2); let n = ws.len() as int; assert(tr[n] == tr2[n]); assert(qround(e, tr2[n], ws2[n], tr2[n + 1])); l_round_same(e, tr2[n], ws2[n], tr2[n + 1], w);
    }
    assert forall|tr: Seq<Q>, ws: Seq<W>| #[trigger] rounds(e, q0, tr, ws) implies !dead(e, tr.last()) by {
        l_prefix(e, q0, tr, ws, tr2, ws2); let n = ws.len() as int; assert(tr[n] == tr2[n]);
        if tr.last().rem != 0 { assert(qround(e, tr2[n], ws2[n], tr2[n + 1])); let v = ws2[n]; l_look_same(e, tr[n].c, v.sl, v.x, v.sl, v.x);
            assert forall|w: W| look(e, tr[n].c, w.sl, w.x) && stepw(e, tr[n], w) implies !#[trigger] halts(e, tr[n], w) by { l_round_same(e, tr2[n], v, tr2[n + 1], w); } }
    }
}
/// runs that come to their end are the same
pub proof fn l_same_end(e: Env, q0: Q, tr: Seq<Q>, ws: Seq<W>, tr2: Seq<Q>, ws2: Seq<W>)
    requires env_ok(e), sound(e, q0), rounds(e, q0, tr, ws), rounds(e, q0, tr2, ws2), tr.last().rem == 0, tr2.last().rem == 0 ensures tr.last() == tr2.last()
{ l_prefix(e, q0, tr, ws, tr2, ws2); l_prefix(e, q0, tr2, ws2, tr, ws); let n = ws.len() as int; assert(tr[n] == tr2[n]); }
pub proof fn l_none(e: Env, q0: Q) ensures rounds(e, q0, seq![q0], Seq::empty()) {}
