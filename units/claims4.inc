// ---- the whole contract: user balances, what the pools owe, and withdrawals under way
pub open spec fn ssum(s: Set<ActorId>, g: spec_fn(ActorId) -> int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { let x = s.choose(); if s.contains(x) { g(x) + ssum(s.remove(x), g) } else { 0 } }
}
pub proof fn l_ssum_take(s: Set<ActorId>, g: spec_fn(ActorId) -> int, x: ActorId) requires s.contains(x) ensures ssum(s, g) == g(x) + ssum(s.remove(x), g) decreases s.len() {
    let c = s.choose(); assert(s.contains(c)); assert(s.len() > 0);
    if c != x { l_ssum_take(s.remove(c), g, x); l_ssum_take(s.remove(x), g, c); assert(s.remove(c).remove(x) =~= s.remove(x).remove(c)); }
}
pub proof fn l_ssum_eq(s: Set<ActorId>, g: spec_fn(ActorId) -> int, h: spec_fn(ActorId) -> int) requires forall|x: ActorId| #[trigger] s.contains(x) ==> g(x) == h(x) ensures ssum(s, g) == ssum(s, h) decreases s.len() {
    if s.len() > 0 { let c = s.choose(); if s.contains(c) { l_ssum_eq(s.remove(c), g, h); } }
}
pub proof fn l_ssum_more(s: Set<ActorId>, t: Set<ActorId>, g: spec_fn(ActorId) -> int) requires forall|x: ActorId| #[trigger] s.contains(x) ==> t.contains(x), forall|x: ActorId| #[trigger] t.contains(x) && !s.contains(x) ==> g(x) == 0 ensures ssum(t, g) == ssum(s, g) decreases t.len() {
    if t.len() > 0 { let c = t.choose(); if t.contains(c) {
        if s.contains(c) { l_ssum_take(s, g, c); l_ssum_more(s.remove(c), t.remove(c), g); } else { l_ssum_more(s, t.remove(c), g); } } }
    else { assert forall|x: ActorId| !#[trigger] s.contains(x) by {} if s.len() > 0 { let y = s.choose(); assert(s.contains(y)); } }
}
pub type LM = HMap<ActorId, HMap<ActorId, TokenAmount>>;
pub open spec fn bal_of(b: LM, t: ActorId) -> spec_fn(ActorId) -> int { |u: ActorId| lbal(b, u, t) }
/// all user balances of a token
pub open spec fn lsum(b: LM, t: ActorId) -> int { ssum(b.m().dom(), bal_of(b, t)) }
pub proof fn l_lsum(b: LM, b2: LM, t: ActorId, who: ActorId, v: int) requires forall|u: ActorId| #[trigger] lbal(b2, u, t) == lbal(b, u, t) + (if u == who { v } else { 0 }) ensures lsum(b2, t) == lsum(b, t) + v {
    let (g, g2) = (bal_of(b, t), bal_of(b2, t)); let all = b.m().dom().union(b2.m().dom()).insert(who);
    l_ssum_more(b.m().dom(), all, g); l_ssum_more(b2.m().dom(), all, g2); l_ssum_take(all, g, who); l_ssum_take(all, g2, who);
    assert forall|u: ActorId| #[trigger] all.remove(who).contains(u) implies g(u) == g2(u) by { assert(lbal(b2, u, t) == lbal(b, u, t)); } l_ssum_eq(all.remove(who), g, g2);
    assert(lbal(b2, who, t) == lbal(b, who, t) + v);
}
/// what the pools owe of a token
pub open spec fn pool_debt(t: ActorId, m: PM, tm: TM) -> spec_fn(PoolKey, Pool) -> real { |k: PoolKey, q: Pool| (if t == k.token_x { claims(true, k, m, q, tm) } else { 0real }) + (if t == k.token_y { claims(false, k, m, q, tm) } else { 0real }) }
pub open spec fn pools_owe(s: Invariant, t: ActorId) -> real { rsum(s.pools.pools.m(), pool_debt(t, s.positions.pm(), s.ticks.ticks.m())) }
/// withdrawals whose outcome the token has not reported yet
pub type AM = Map<(MessageId, ActorId), AwaitingTransfer>;
pub open spec fn leaving(t: ActorId) -> spec_fn((MessageId, ActorId), AwaitingTransfer) -> real { |k: (MessageId, ActorId), e: AwaitingTransfer| if k.1 == t && e.transfer_type is Withdrawal { e.amount.d() as real } else { 0real } }
pub open spec fn under_way(w: AM, t: ActorId) -> real { rsum(w, leaving(t)) }
/// everything the contract owes of a token
pub open spec fn debts(s: Invariant, t: ActorId) -> real { (lsum(s.balances, t) as real) + pools_owe(s, t) + under_way(s.awaiting_transfers.m(), t) }
pub open spec fn no_more(a: Invariant, b: Invariant) -> bool { forall|t: ActorId| #[trigger] debts(b, t) <= debts(a, t) }
/// the same debts where only other parts of the state differ
pub proof fn l_same_debts(a: Invariant, b: Invariant, t: ActorId) requires b.balances == a.balances, b.pools == a.pools, b.positions == a.positions, b.ticks == a.ticks, b.awaiting_transfers == a.awaiting_transfers ensures debts(b, t) == debts(a, t) {}
/// one pool changes: the change of what all pools owe is that pool's
pub proof fn l_pools_owe(a: Invariant, b: Invariant, k: PoolKey, t: ActorId)
    requires phas(a.pools, k), k.token_x != k.token_y, b.pools.pools.m() == a.pools.pools.m().insert(k, b.pool(k)), forall|j: PoolKey, isx: bool| j != k ==> #[trigger] claims(isx, j, b.positions.pm(), a.pool(j), b.ticks.ticks.m()) <= claims(isx, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m())
    ensures pools_owe(b, t) <= pools_owe(a, t) + (if t == k.token_x { claims(true, k, b.positions.pm(), b.pool(k), b.ticks.ticks.m()) - claims(true, k, a.positions.pm(), a.pool(k), a.ticks.ticks.m()) } else if t == k.token_y { claims(false, k, b.positions.pm(), b.pool(k), b.ticks.ticks.m()) - claims(false, k, a.positions.pm(), a.pool(k), a.ticks.ticks.m()) } else { 0real })
{
    let (f, g) = (pool_debt(t, a.positions.pm(), a.ticks.ticks.m()), pool_debt(t, b.positions.pm(), b.ticks.ticks.m())); let (p, q) = (a.pools.pools.m(), b.pools.pools.m());
    l_rsum_take(p, f, k); l_rsum_take(q, g, k); assert(p.remove(k) =~= q.remove(k)); let r = p.remove(k);
    assert forall|j: PoolKey| #[trigger] inr(r, j) implies g(j, r[j]) <= f(j, r[j]) by { assert(r[j] == a.pool(j)); assert(claims(true, j, b.positions.pm(), a.pool(j), b.ticks.ticks.m()) <= claims(true, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m())); assert(claims(false, j, b.positions.pm(), a.pool(j), b.ticks.ticks.m()) <= claims(false, j, a.positions.pm(), a.pool(j), a.ticks.ticks.m())); }
    l_rsum_le(r, r, g, f);
}
pub open spec fn same_end(isx: bool, t: Tick, u: Tick) -> bool { u.index == t.index && out_of(isx, u) == out_of(isx, t) }
/// a position's claim depends on the pool's price, tick and counters and on its two ends' counters only
pub proof fn l_claim_same(isx: bool, p: Pool, q: Pool, lo: Tick, lo2: Tick, up: Tick, up2: Tick, z: Position)
    requires same_end(isx, lo, lo2), same_end(isx, up, up2), q.current_tick_index == p.current_tick_index, q.sqrt_price == p.sqrt_price, glob_of(isx, q) == glob_of(isx, p)
    ensures claim(isx, q, lo2, up2, z) == claim(isx, p, lo, up, z) { reveal(growth_inside); }
pub proof fn l_wsub_self(a: int) ensures wsub(a, a) == 0 { reveal(wsub); vstd::arithmetic::div_mod::lemma_small_mod(0, W128 as nat); }
/// nothing has accrued right after an update
pub proof fn l_gain_none(l: int) ensures gain(0, l) == 0real { assert(0 * l == 0); assert(0real / (E33 as real) == 0real) by (nonlinear_arith) requires E33 as real > 0real; }
/// the fee paid out is no more than what accrued
pub proof fn l_owed(g: int, l: int) requires g >= 0, l >= 0 ensures (fee_share(g, l) as real) <= gain(g, l) {
    reveal(fee_share); l_share_le(g, l); let (e, x, gl) = (E33 as real, fee_share(g, l), g * l); l_rdiv(gl as real, e); assert(x * E33 <= gl) by { assert(100000 * E28 == E33); }
    l_rmul_eq(x, E33, x as real, e); l_rcancel(gain(g, l), x as real, e);
}
pub proof fn l_r0(x: real, y: real) ensures x * (y - y) == 0real { assert(x * (y - y) == 0real) by (nonlinear_arith); }
/// the worth of a position against the rounded token amounts: opening pays at least it, closing gives at most it
pub proof fn l_worth_pos(k: PoolKey, p: int, c: int, lo: int, up: int, l: int)
    requires key_ok(k), price_in(k, p, c), on_grid(k, c as i32), tick_ok(c), on_grid(k, lo as i32), tick_ok(lo), on_grid(k, up as i32), tick_ok(up), lo < up, l >= 0
    ensures ({ let (a, b) = (tick_price(lo), tick_price(up));
        &&& (pos_x(c, p, l, false, up, lo) as real) <= val(true, l, p, a, b) <= (pos_x(c, p, l, true, up, lo) as real)
        &&& (pos_y(c, p, l, false, up, lo) as real) <= val(false, l, p, a, b) <= (pos_y(c, p, l, true, up, lo) as real) })
{
    reveal(pos_x); reveal(pos_y); let (a, b, s, lr) = (tick_price(lo), tick_price(up), k.fee_tier.tick_spacing as int, l as real); l_price_mono(lo, up); l_price_range(lo); l_price_range(up); l_price_range(c);
    if c < up { l_step_grid(c, up, s); if c + s < up { l_price_mono(c + s, up); } } else if up < c { l_price_mono(up, c); }
    if c < lo { l_step_grid(c, lo, s); if c + s < lo { l_price_mono(c + s, lo); } } else if lo < c { l_price_mono(lo, c); }
    l_r0(lr, worth(false, a)); l_r0(lr, worth(true, b)); l_r0(lr, worth(true, a)); l_r0(lr, worth(false, b));
    if c < lo { l_amounts(a, b, l); assert(clampi(p, a, b) == a); } else if c < up { l_amounts(p, b, l); l_amounts(a, p, l); assert(clampi(p, a, b) == p); } else { l_amounts(a, b, l); assert(clampi(p, a, b) == b); }
}
pub proof fn l_amounts(a: int, b: int, l: int) requires E12 <= a <= b, l >= 0
    ensures (dx(a, b, l, false) as real) <= (l as real) * (worth(true, a) - worth(true, b)) <= (dx(a, b, l, true) as real), (dy(a, b, l, false) as real) <= (l as real) * (worth(false, b) - worth(false, a)) <= (dy(a, b, l, true) as real)
{
    assert(a * b / E24 > 0) by { assert(a * b >= E12 * E12) by (nonlinear_arith) requires a >= E12, b >= E12, E12 == 1000000000000; l_fdiv(a * b, E24); }
    l_dx_up(a, b, l); l_dx_down(a, b, l); l_dy(a, b, l); assert(adiff(a, b) == b - a); l_worth_x(dx(a, b, l, true), a, b, l); l_worth_x(dx(a, b, l, false), a, b, l); l_worth_y(dy(a, b, l, true), b, a, l); l_worth_y(dy(a, b, l, false), b, a, l);
}
