/// a route: hop after hop
pub proof fn l_owes_routed(a: Invariant, b: Invariant, u: ActorId, hs: Seq<SwapHop>, amt: int, out: int) requires a.wf(), routed(a, b, u, hs, amt, out) ensures b.wf(), no_more(a, b) decreases hs.len() {
    if hs.len() > 0 {
        let (m, x) = choose|m: Invariant, x: int| routed(a, m, u, hs.drop_last(), amt, x) && #[trigger] hop(m, b, u, hs.last(), x, out);
        l_owes_routed(a, m, u, hs.drop_last(), amt, x); let h = hs.last();
        let c = choose|c: CalculateSwapResult| #[trigger] swapped(m, b, u, h.pool_key, h.x_to_y, x, true, lim_of(h.x_to_y), c) && out == c.amount_out.d(); l_owes_swapped(m, b, u, h.pool_key, h.x_to_y, x, true, lim_of(h.x_to_y), c);
        assert forall|t: ActorId| #[trigger] debts(b, t) <= debts(a, t) by { assert(debts(m, t) <= debts(a, t)); }
    }
}
// ---- transfers
pub proof fn l_leaving(t: ActorId, k: (MessageId, ActorId), e: AwaitingTransfer) ensures leaving(t)(k, e) >= 0real { broadcast use uint_ranges; reveal(u256_val); }
pub proof fn l_way_in(w: AM, t: ActorId, k: (MessageId, ActorId), e: AwaitingTransfer) ensures under_way(w.insert(k, e), t) <= under_way(w, t) + leaving(t)(k, e) {
    let f = leaving(t); if w.dom().contains(k) { l_rsum_set(w, f, k, e); l_leaving(t, k, w[k]); } else { l_rsum_new(w, f, k, e); }
}
pub proof fn l_way_out(w: AM, t: ActorId, k: (MessageId, ActorId)) ensures under_way(w.remove(k), t) == under_way(w, t) - (if w.dom().contains(k) { leaving(t)(k, w[k]) } else { 0real }) {
    if w.dom().contains(k) { l_rsum_take(w, leaving(t), k); } else { assert(w.remove(k) =~= w); }
}
/// tokens that the reply says have come in, and those it says have left
pub open spec fn came(a: Invariant, q: (MessageId, ActorId), t: ActorId, ok: bool) -> int { if t == q.1 && a.aw().dom().contains(q) && ok && a.aw()[q].transfer_type is Deposit { a.aw()[q].amount.d() } else { 0 } }
pub open spec fn went(a: Invariant, q: (MessageId, ActorId), t: ActorId, ok: bool) -> int { if t == q.1 && a.aw().dom().contains(q) && ok && a.aw()[q].transfer_type is Withdrawal { a.aw()[q].amount.d() } else { 0 } }
/// a reply: debts follow the tokens that came in or left
pub proof fn l_owes_replied(a: Invariant, b: Invariant, id: MessageId, tok: ActorId, ok: bool, t: ActorId) requires replied(a, b, id, tok, ok, !ok)
    ensures debts(b, t) <= debts(a, t) + (came(a, (id, tok), t, ok) as real) - (went(a, (id, tok), t, ok) as real)
{
    let q = (id, tok); l_way_out(a.aw(), t, q); broadcast use uint_ranges; reveal(u256_val);
    if a.aw().dom().contains(q) { let e = a.aw()[q]; let hit = (match e.transfer_type { TransferType::Deposit => ok, TransferType::Withdrawal => !ok }) && a.bal(e.account, tok) + e.amount.d() <= U256::umax(); let v = if hit && t == tok { e.amount.d() } else { 0 };
        assert forall|u: ActorId| #[trigger] lbal(b.balances, u, t) == lbal(a.balances, u, t) + (if u == e.account { v } else { 0 }) by {} l_lsum(a.balances, b.balances, t, e.account, v); }
    else { assert forall|u: ActorId| #[trigger] lbal(b.balances, u, t) == lbal(a.balances, u, t) + (if u == tok { 0 } else { 0int }) by {} l_lsum(a.balances, b.balances, t, tok, 0); }
}
/// a failed transfer: a deposit is forgotten, a withdrawal given back
pub proof fn l_owes_panicked(a: Invariant, b: Invariant, id: MessageId, tok: ActorId, t: ActorId) requires replied(a, b, id, tok, false, true) ensures debts(b, t) <= debts(a, t) { l_owes_replied(a, b, id, tok, false, t); }
pub open spec fn leaves(ty: TransferType, amt: int) -> int { match ty { TransferType::Deposit => 0, TransferType::Withdrawal => amt } }
/// when the program sleeps on a request no more is owed than before it, and waking adds nothing
pub proof fn l_owes_asked(a: Invariant, b: Invariant, l: Seq<Sleep>, k: Seq<Sleep>, tok: ActorId, who: ActorId, amt: int, ty: TransferType) requires one_transfer(a, b, l, k, tok, who, amt, ty, leaves(ty, amt)) ensures no_more(a, k.last().slept), no_more(k.last().woke, b) {
    let s = k.last().slept; let q = (k.last().ids[0], tok); let e = s.aw()[q];
    assert forall|t: ActorId| #[trigger] debts(s, t) <= debts(a, t) by { l_way_in(a.aw(), t, q, e); let v = if t == tok { -leaves(ty, amt) } else { 0 }; assert forall|u: ActorId| #[trigger] lbal(s.balances, u, t) == lbal(a.balances, u, t) + (if u == who { v } else { 0 }) by {} l_lsum(a.balances, s.balances, t, who, v); }
}
pub proof fn l_owes_asked_both(a: Invariant, b: Invariant, l: Seq<Sleep>, k: Seq<Sleep>, x: ActorId, ax: int, y: ActorId, ay: int, who: ActorId, ty: TransferType) requires x != y, two_transfers(a, b, l, k, x, ax, y, ay, who, ty, leaves(ty, ax), leaves(ty, ay)) ensures no_more(a, k.last().slept), no_more(k.last().woke, b) {
    let s = k.last().slept; let (q, r) = ((k.last().ids[0], x), (k.last().ids[1], y)); let (e, f) = (s.aw()[q], s.aw()[r]);
    assert forall|t: ActorId| #[trigger] debts(s, t) <= debts(a, t) by { l_way_in(a.aw(), t, q, e); l_way_in(a.aw().insert(q, e), t, r, f); let v = if t == x { -leaves(ty, ax) } else if t == y { -leaves(ty, ay) } else { 0 }; assert forall|u: ActorId| #[trigger] lbal(s.balances, u, t) == lbal(a.balances, u, t) + (if u == who { v } else { 0 }) by {} l_lsum(a.balances, s.balances, t, who, v); }
}
/// coins: what is owed in them follows what came with the message or goes back with the reply
pub proof fn l_owes_coins(a: Invariant, b: Invariant, who: ActorId, v: int, t: ActorId) requires b.same_but_balances(&a), b.only_bal(&a, who, ActorId::zero_id(), a.bal(who, ActorId::zero_id()) + v) ensures debts(b, t) == debts(a, t) + (if t == ActorId::zero_id() { v as real } else { 0real }) {
    let w = if t == ActorId::zero_id() { v } else { 0 }; assert forall|u: ActorId| #[trigger] lbal(b.balances, u, t) == lbal(a.balances, u, t) + (if u == who { w } else { 0 }) by {} l_lsum(a.balances, b.balances, t, who, w);
}
// ---- the two ends of the argument
/// a contract just created owes nothing
pub proof fn l_owes_nothing(a: Invariant, t: ActorId) requires a.balances.m() == Map::<ActorId, HMap<ActorId, TokenAmount>>::empty(), a.pools.pools.m() == Map::<PoolKey, Pool>::empty(), a.aw() == Map::<(MessageId, ActorId), AwaitingTransfer>::empty() ensures debts(a, t) == 0real { assert(a.balances.m().dom().len() == 0); assert(a.pools.pools.m().dom().len() == 0); assert(a.aw().dom().len() == 0); }
/// what closing a position pays out now
pub open spec fn payout(isx: bool, a: Invariant, k: PoolKey) -> PF { |x: (ActorId, u32), z: Position| if z.pool_key == k { (pos_xy(isx, a.pool(k).current_tick_index as int, a.pool(k).sqrt_price.d(), z.liquidity.d(), false, z.upper_tick_index as int, z.lower_tick_index as int) + due(isx, a, z)) as real } else { 0real } }
pub open spec fn pays(isx: bool, a: Invariant, k: PoolKey) -> real { (fp_of(isx, a.pool(k)) as real) + rsum(a.positions.pm(), payout(isx, a, k)) }
/// every balance, every protocol fee, and every position closed at this moment, with its fees
pub open spec fn payable(a: Invariant, t: ActorId) -> real {
    (lsum(a.balances, t) as real) + rsum(a.pools.pools.m(), |k: PoolKey, q: Pool| (if t == k.token_x { pays(true, a, k) } else { 0real }) + (if t == k.token_y { pays(false, a, k) } else { 0real })) + under_way(a.aw(), t)
}
pub proof fn l_payout(isx: bool, a: Invariant, k: PoolKey) requires a.wf(), phas(a.pools, k) ensures pays(isx, a, k) <= claims(isx, k, a.positions.pm(), a.pool(k), a.ticks.ticks.m()) {
    let (m, p) = (a.positions.pm(), a.pool(k)); let (f, g) = (payout(isx, a, k), cf(isx, k, p, a.ticks.ticks.m())); l_pwf(a.pools, a.pool_keys, k);
    assert forall|x: (ActorId, u32)| #[trigger] inr(m, x) implies f(x, m[x]) <= g(x, m[x]) by { let z = m[x]; l_sums_pos(m, a.ticks, a.pools, x);
        if z.pool_key == k { l_due(isx, a, z); l_twf(a.ticks, a.tickmap, a.pools, k, z.lower_tick_index); l_twf(a.ticks, a.tickmap, a.pools, k, z.upper_tick_index); l_worth_pos(k, p.sqrt_price.d(), p.current_tick_index as int, z.lower_tick_index as int, z.upper_tick_index as int, z.liquidity.d()); } }
    l_rsum_le(m, m, f, g);
}
/// everyone together can take out no more than is owed
pub proof fn l_payable(a: Invariant, t: ActorId) requires a.wf() ensures payable(a, t) <= debts(a, t) {
    let ps = a.pools.pools.m(); let f = |k: PoolKey, q: Pool| (if t == k.token_x { pays(true, a, k) } else { 0real }) + (if t == k.token_y { pays(false, a, k) } else { 0real }); let g = pool_debt(t, a.positions.pm(), a.ticks.ticks.m());
    assert forall|k: PoolKey| #[trigger] inr(ps, k) implies f(k, ps[k]) <= g(k, ps[k]) by { l_payout(true, a, k); l_payout(false, a, k); } l_rsum_le(ps, ps, f, g);
}
