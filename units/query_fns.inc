//@struct src/contracts/storage/tick.rs LiquidityTick copy
//@struct src/contracts/storage/tick.rs PositionTick copy
impl<K, V> VOrDefault<HMap<K, V>> for Option<HMap<K, V>> { #[verifier::external_body] fn vunwrap_or_default(self) -> (r: HMap<K, V>) ensures match self { Some(x) => r == x, None => r.m() == Map::<K, V>::empty() } { unimplemented!() } }
/// set bits among the first n
pub open spec fn bits(w: u64, n: int) -> int decreases n { if n <= 0 { 0 } else { bits(w, n - 1) + if bitof(w, n - 1) { 1int } else { 0 } } }
/// marks of a pool among the first n places
pub open spec fn marks(m: Map<(u16, PoolKey), u64>, k: PoolKey, n: int) -> int decreases n { if n <= 0 { 0 } else { marks(m, k, n - 1) + if set_at(m, k, n - 1) { 1int } else { 0 } } }
pub trait VOnes: Sized { spec fn w(self) -> u64; fn vones(self) -> (r: u32) ensures r as int == bits(self.w(), 64), r <= 64; }
impl VOnes for u64 { open spec fn w(self) -> u64 { self } #[verifier::external_body] fn vones(self) -> (r: u32) { self.count_ones() } }
impl<'a> VOnes for &'a u64 { open spec fn w(self) -> u64 { *self } #[verifier::external_body] fn vones(self) -> (r: u32) { self.count_ones() } }
pub fn vcount_ones<T: VOnes>(x: T) -> (r: u32) ensures r as int == bits(x.w(), 64), r <= 64 { x.vones() }
pub proof fn l_marks_word(m: Map<(u16, PoolKey), u64>, k: PoolKey, c: int, n: int) requires 0 <= c, 0 <= n <= 64 ensures marks(m, k, 64 * c + n) == marks(m, k, 64 * c) + bits(word(m, k, c), n) decreases n
{ if n > 0 { l_marks_word(m, k, c, n - 1); let i = 64 * c + n - 1; assert(i / 64 == c && i % 64 == n - 1); } }
pub proof fn l_bits_zero(n: int) requires n <= 64 ensures bits(0, n) == 0 decreases n { if n > 0 { l_bits_zero(n - 1); l_bit0(n - 1); } }
pub proof fn l_bit0(b: int) requires 0 <= b < 64 ensures !bitof(0, b) { let c = b as u64; assert((0u64 >> c) & 1u64 == 0u64) by (bit_vector) requires c < 64; }
/// the key of a pair of tokens (in either order) and a fee tier
pub open spec fn is_key(k: PoolKey, a: ActorId, b: ActorId, t: FeeTier) -> bool { a != b && k.fee_tier == t && k.token_x.key() < k.token_y.key() && ((k.token_x == a && k.token_y == b) || (k.token_x == b && k.token_y == a)) }
/// the stored words of a pool, by number
pub open spec fn words(m: Map<(u16, PoolKey), u64>, k: PoolKey, n: int) -> Seq<(u16, u64)> decreases n { if n <= 0 { Seq::empty() } else { let r = words(m, k, n - 1); let i = ((n - 1) as u16, k); if m.dom().contains(i) { r.push((i.0, m[i])) } else { r } } }
/// the pools of a pair, in the order of the fee tiers
pub open spec fn pair_pools(p: Pools, x: ActorId, y: ActorId, ts: Seq<FeeTier>) -> Seq<(FeeTier, Pool)> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else { let r = pair_pools(p, x, y, ts.drop_last()); let k = PoolKey { token_x: x, token_y: y, fee_tier: ts.last() }; if phas(p, k) { r.push((ts.last(), p.pools.m()[k])) } else { r } }
}
pub open spec fn ptick(t: Tick) -> PositionTick { PositionTick { index: t.index, fee_growth_outside_x: t.fee_growth_outside_x, fee_growth_outside_y: t.fee_growth_outside_y, seconds_outside: t.seconds_outside } }
pub open spec fn ltick(t: Tick) -> LiquidityTick { LiquidityTick { index: t.index, liquidity_change: t.liquidity_change, sign: t.sign } }
/// both ticks of each position
pub open spec fn end_ticks(a: Invariant, l: Seq<Position>) -> Seq<PositionTick> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { let z = l.last(); end_ticks(a, l.drop_last()).push(ptick(a.tick(z.pool_key, z.lower_tick_index))).push(ptick(a.tick(z.pool_key, z.upper_tick_index))) }
}
/// a page: from the offset on, as many as asked for, as far as there are any
pub open spec fn page<T>(l: Seq<T>, offset: int, size: int) -> Seq<T> { if offset + size <= l.len() { l.subrange(offset, offset + size) } else if offset <= l.len() { l.skip(offset) } else { Seq::empty() } }
//@fn src/contracts/storage/tick.rs LiquidityTick::From::from -> r
    ensures r == ltick(*tick)
//@end
//@fn src/contracts/storage/tick.rs PositionTick::From::from -> r
    ensures r == ptick(*tick)
//@end
//@fn src/invariant_storage.rs Invariant::tickmap_slice -> r svc nostate
    requires range.lo == 0
    ensures r@ == words(self.tickmap.bitmap.m(), pool_key, range.hi + 1)
//@loop 0
    invariant range.lo == 0, __end0 == range.hi, __go0 ==> chunk_index <= __end0, tickmap_slice@ == words(self.tickmap.bitmap.m(), pool_key, if __go0 { chunk_index as int } else { __end0 + 1 })
    decreases (if __go0 { __end0 - chunk_index + 1 } else { 0 })
//@end
//@fn src/invariant_storage.rs Invariant::liquidity_ticks_count -> r svc nostate
    ensures r as int == marks(self.tickmap.bitmap.m(), pool_key, 64 * (idx(max_tick_of(pool_key.fee_tier.tick_spacing as int), pool_key.fee_tier.tick_spacing as int) / 64 + 1))
//@loop 0
    invariant __go0 ==> chunk_index <= __end0, sum as int == marks(self.tickmap.bitmap.m(), pool_key, 64 * (if __go0 { chunk_index as int } else { __end0 + 1 })), sum <= 64 * (if __go0 { chunk_index as int } else { __end0 + 1 }), __end0 as int == idx(max_tick_of(pool_key.fee_tier.tick_spacing as int), pool_key.fee_tier.tick_spacing as int) / 64
    decreases (if __go0 { __end0 - chunk_index + 1 } else { 0 })
//@loopin 0
    proof { l_marks_word(self.tickmap.bitmap.m(), pool_key, chunk_index as int, 64); l_bits_zero(64); }
//@end
//@fn src/invariant_service.rs InvariantService::get_protocol_fee -> r svc
    ensures *final(invariant) == *old(invariant), r == old(invariant).config.protocol_fee
//@end
//@fn src/invariant_service.rs InvariantService::fee_tier_exists -> r svc
    ensures *final(invariant) == *old(invariant), r == old(invariant).fee_tiers.fee_tiers@.contains(fee_tier)
//@end
//@fn src/invariant_service.rs InvariantService::get_fee_tiers -> r svc
    ensures *final(invariant) == *old(invariant), r@ == old(invariant).fee_tiers.fee_tiers@
//@end
pub open spec fn pool_answer(a: Invariant, x: ActorId, y: ActorId, t: FeeTier, r: Result<Pool, InvariantError>) -> bool { match r { Ok(p) => exists|k: PoolKey| #[trigger] is_key(k, x, y, t) && phas(a.pools, k) && p == a.pool(k), Err(_) => forall|k: PoolKey| #[trigger] is_key(k, x, y, t) ==> !phas(a.pools, k) } }
//@fn src/invariant_service.rs InvariantService::get_pool -> r svc
    ensures *final(invariant) == *old(invariant), pool_answer(*old(invariant), token_x, token_y, fee_tier, r)
//@after pool_key
    proof { assert(is_key(pool_key, token_x, token_y, fee_tier)); assert forall|k: PoolKey| is_key(k, token_x, token_y, fee_tier) implies k == pool_key by { l_actor(k.token_x, pool_key.token_x); l_actor(k.token_y, pool_key.token_y); } assert(phas(invariant.pools, pool_key) == phas(old(invariant).pools, pool_key)); }
//@end
//@fn src/invariant_service.rs InvariantService::get_pool_keys -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), r.0@ == page(old(invariant).pool_keys.list(), offset as int, size as int), r.1 as int == old(invariant).pool_keys.list().len()
//@pre
    proof { reveal(pwf); }
//@end
//@fn src/invariant_service.rs InvariantService::get_position -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), match r { Ok(p) => index < old(invariant).positions.len(owner_id) && p == old(invariant).positions.list(owner_id)[index as int], Err(_) => index >= old(invariant).positions.len(owner_id) }
//@end
//@fn src/invariant_service.rs InvariantService::get_tick -> r svc
    ensures *final(invariant) == *old(invariant), match r { Ok(t) => old(invariant).has_tick(key, index) && t == old(invariant).tick(key, index), Err(_) => !old(invariant).has_tick(key, index) }
//@end
//@fn src/invariant_service.rs InvariantService::is_tick_initialized -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), key_ok(key) && on_grid(key, index) ==> r == old(invariant).has_tick(key, index)
//@pre
    proof { l_twf(invariant.ticks, invariant.tickmap, invariant.pools, key, index); }
//@end
//@fn src/invariant_service.rs InvariantService::get_all_positions -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), r@ == old(invariant).positions.list(owner_id)
//@end
//@fn src/invariant_service.rs InvariantService::get_position_with_associates -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), match r { Ok((z, p, lo, up)) => index < old(invariant).positions.len(owner) && z == old(invariant).positions.list(owner)[index as int] && old(invariant).has_pool(z.pool_key) && p == old(invariant).pool(z.pool_key)
            && lo == old(invariant).tick(z.pool_key, z.lower_tick_index) && up == old(invariant).tick(z.pool_key, z.upper_tick_index),
        Err(_) => index >= old(invariant).positions.len(owner) }
//@pre
    proof { let m = invariant.positions.positions.m(); let x = (owner, index); if m.dom().contains(x) { l_sums_pos(m, invariant.ticks, invariant.pools, x); } }
//@end
//@fn src/invariant_service.rs InvariantService::get_user_position_amount -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), r as int == old(invariant).positions.list(owner_id).len()
//@end
//@fn src/invariant_service.rs InvariantService::get_liquidity_ticks_amount -> r svc
    ensures *final(invariant) == *old(invariant), r as int == marks(old(invariant).tickmap.bitmap.m(), pool_key, 64 * (idx(max_tick_of(pool_key.fee_tier.tick_spacing as int), pool_key.fee_tier.tick_spacing as int) / 64 + 1))
//@end
//@fn src/invariant_service.rs InvariantService::get_all_pools_for_pair -> r svc forvec
    ensures *final(invariant) == *old(invariant), match r { Ok(v) => old(invariant).fee_tiers.fee_tiers@.len() > 0 ==> exists|x: ActorId, y: ActorId| x.key() < y.key() && ((x == token0 && y == token1) || (x == token1 && y == token0)) && v@ == #[trigger] pair_pools(old(invariant).pools, x, y, old(invariant).fee_tiers.fee_tiers@), Err(_) => token0 == token1 }
//@pre
    let ghost ts = invariant.fee_tiers.fee_tiers@; let ghost (x, y) = if token0.key() < token1.key() { (token0, token1) } else { (token1, token0) }; proof { l_actor(token0, token1); }
//@loop 0
    invariant *invariant == *old(invariant), ts == __v@, ts == old(invariant).fee_tiers.fee_tiers@, __k0 <= ts.len(), ts.len() > 0 && __k0 > 0 ==> token0 != token1, (x, y) == (if token0.key() < token1.key() { (token0, token1) } else { (token1, token0) }), pools@ == pair_pools(old(invariant).pools, x, y, ts.take(__k0 as int))
    decreases ts.len() - __k0
//@loopin 0
    let ghost n = __k0 as int; proof { assert(ts.take(n + 1).drop_last() =~= ts.take(n)); l_actor(token0, token1); }
//@tail
    proof { assert(ts.take(ts.len() as int) =~= ts); l_actor(token0, token1); }
//@end
//@fn src/invariant_service.rs InvariantService::get_user_balances -> r svc
    ensures *final(invariant) == *old(invariant), entries_of(if old(invariant).balances.m().dom().contains(user) { old(invariant).balances.m()[user].m() } else { Map::<ActorId, TokenAmount>::empty() }, r@)
//@loop 0
    invariant __k <= __src@.len(), __c@.len() == __k, forall|i: int| #![trigger __c@[i]] 0 <= i < __k ==> __c@[i] == __src@[i], *invariant == *old(invariant)
    ensures __c@ =~= __src@
    decreases __src@.len() - __k
//@end
//@fn src/invariant_service.rs InvariantService::get_tickmap -> r svc
    ensures *final(invariant) == *old(invariant), r@ == words(old(invariant).tickmap.bitmap.m(), pool_key, idx(max_tick_of(pool_key.fee_tier.tick_spacing as int), pool_key.fee_tier.tick_spacing as int) / 64 + 1)
//@end
pub open spec fn lticks_of(a: Invariant, k: PoolKey, ix: Seq<i32>, v: Seq<LiquidityTick>) -> bool { v.len() == ix.len() && forall|i: int| #![trigger v[i]] #![trigger ix[i]] 0 <= i < v.len() ==> thas(a.ticks, k, ix[i]) && v[i] == ltick(a.tick(k, ix[i])) }
//@fn src/invariant_service.rs InvariantService::get_liquidity_ticks -> r svc
    ensures *final(invariant) == *old(invariant), match r { Ok(v) => lticks_of(*old(invariant), pool_key, tickmap@, v@), Err(_) => tickmap@.len() > 21544 }
//@pre
    let ghost a = *invariant;
//@loop 0
    invariant *invariant == *old(invariant), __src@ == tickmap@, __k <= tickmap@.len(), __c@.len() == __k, a == *old(invariant), lticks_of(a, pool_key, tickmap@.take(__k as int), __c@)
    ensures lticks_of(a, pool_key, tickmap@.take(tickmap@.len() as int), __c@)
    decreases tickmap@.len() - __k
//@loopin 0
    let ghost (n, c0) = (__k as int, __c@);
//@loopend 0
    proof { let (ix, ks) = (tickmap@.take(n), tickmap@.take(n + 1)); assert forall|i: int| #![trigger __c@[i]] 0 <= i < __c@.len() implies thas(a.ticks, pool_key, ks[i]) && __c@[i] == ltick(a.tick(pool_key, ks[i])) by { if i < n { assert(__c@[i] == c0[i]); assert(ix[i] == ks[i]); } } }
//@tail
    proof { assert(tickmap@.take(tickmap@.len() as int) =~= tickmap@); }
//@end
/// the ends of the positions from the offset on, up to the end of the list or the size limit
pub open spec fn ends_from(a: Invariant, l: Seq<Position>, o: int, ts: Seq<PositionTick>) -> bool { if o >= l.len() { ts.len() == 0 } else { exists|e: int| o <= e <= l.len() && ts == #[trigger] end_ticks(a, l.subrange(o, e)) && (e == l.len() || ts.len() >= 17872) } }
//@fn src/invariant_service.rs InvariantService::get_position_ticks -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), ends_from(*old(invariant), old(invariant).positions.list(owner), offset as int, r@)
//@pre
    let ghost a = *invariant; let ghost l = a.positions.list(owner); let ghost o = offset as int;
//@loop 0
    invariant_except_break offset <= i, i <= __end0 || i == offset, if o <= l.len() { ticks@ == end_ticks(a, l.subrange(o, i as int)) } else { ticks@.len() == 0 }
    invariant *invariant == a, a.wf(), l == a.positions.list(owner), __end0 as int == l.len(), o == offset
    ensures ends_from(a, l, o, ticks@)
    decreases __end0 - i
//@loopin 0
    proof { let m = a.positions.positions.m(); let x = (owner, i); assert(m.dom().contains(x)); l_sums_pos(m, a.ticks, a.pools, x); assert(l[i as int] == m[x]);
        assert(l.subrange(o, i + 1).drop_last() =~= l.subrange(o, i as int)); assert(l.subrange(o, i + 1).last() == l[i as int]); let z = l[i as int];
        assert(end_ticks(a, l.subrange(o, i + 1)) == end_ticks(a, l.subrange(o, i as int)).push(ptick(a.tick(z.pool_key, z.lower_tick_index))).push(ptick(a.tick(z.pool_key, z.upper_tick_index)))); }
//@end
/// position i of the account appears in group g
pub open spec fn listed(gs: Seq<(Pool, Vec<(Position, u32)>)>, g: int, j: int, i: int) -> bool { 0 <= g < gs.len() && 0 <= j < gs[g].1@.len() && gs[g].1@[j].1 == i }
pub open spec fn some_listed(gs: Seq<(Pool, Vec<(Position, u32)>)>, i: int) -> bool { exists|g: int, j: int| #[trigger] listed(gs, g, j, i) }
/// one group: not empty, all of one pool, which stands in front, in order of their numbers, each with its number
pub open spec fn group_ok(a: Invariant, l: Seq<Position>, o: int, e: int, g: (Pool, Vec<(Position, u32)>)) -> bool {
    &&& g.1@.len() > 0 && a.has_pool(g.1@[0].0.pool_key) && g.0 == a.pool(g.1@[0].0.pool_key)
    &&& forall|j: int| #![trigger g.1@[j]] 0 <= j < g.1@.len() ==> o <= g.1@[j].1 < e && g.1@[j].0 == l[g.1@[j].1 as int] && g.1@[j].0.pool_key == g.1@[0].0.pool_key
    &&& forall|i: int, j: int| #![trigger g.1@[i], g.1@[j]] 0 <= i < j < g.1@.len() ==> g.1@[i].1 < g.1@[j].1
}
/// the positions numbered o .. e, all of them, grouped by pool
pub open spec fn grouped(a: Invariant, l: Seq<Position>, o: int, e: int, gs: Seq<(Pool, Vec<(Position, u32)>)>) -> bool {
    &&& forall|g: int| #![trigger gs[g]] 0 <= g < gs.len() ==> group_ok(a, l, o, e, gs[g])
    &&& forall|g: int, h: int| #![trigger gs[g], gs[h]] 0 <= g < h < gs.len() ==> gs[g].1@[0].0.pool_key != gs[h].1@[0].0.pool_key
    &&& forall|i: int| o <= i < e ==> #[trigger] some_listed(gs, i)
}
pub proof fn l_grouped_more(a: Invariant, l: Seq<Position>, o: int, e: int, gs: Seq<(Pool, Vec<(Position, u32)>)>, hs: Seq<(Pool, Vec<(Position, u32)>)>, f: int)
    requires grouped(a, l, o, e, gs), 0 <= o <= e < l.len(), e < u32::MAX, 0 <= f < gs.len(), l[e].pool_key == gs[f].1@[0].0.pool_key, hs.len() == gs.len(), hs[f].0 == gs[f].0, hs[f].1@ == gs[f].1@.push((l[e], e as u32)), forall|g: int| 0 <= g < gs.len() && g != f ==> #[trigger] hs[g] == gs[g]
    ensures grouped(a, l, o, e + 1, hs)
{
    assert forall|g: int| #![trigger hs[g]] 0 <= g < hs.len() implies group_ok(a, l, o, e + 1, hs[g]) by { assert(group_ok(a, l, o, e, gs[g])); let (x, y) = (gs[g].1@, hs[g].1@); if g == f { assert(y[0] == x[0]);
        assert forall|j: int| #![trigger y[j]] 0 <= j < y.len() implies o <= y[j].1 < e + 1 && y[j].0 == l[y[j].1 as int] && y[j].0.pool_key == y[0].0.pool_key by { if j < x.len() { assert(y[j] == x[j]); } }
        assert forall|i: int, j: int| #![trigger y[i], y[j]] 0 <= i < j < y.len() implies y[i].1 < y[j].1 by { assert(y[i] == x[i]); if j < x.len() { assert(y[j] == x[j]); } } } }
    assert forall|g: int, h: int| #![trigger hs[g], hs[h]] 0 <= g < h < hs.len() implies hs[g].1@[0].0.pool_key != hs[h].1@[0].0.pool_key by { assert(gs[g].1@[0].0.pool_key != gs[h].1@[0].0.pool_key); assert(group_ok(a, l, o, e, gs[f])); assert(hs[f].1@[0] == gs[f].1@[0]); }
    assert forall|i: int| o <= i < e + 1 implies #[trigger] some_listed(hs, i) by { if i == e { assert(listed(hs, f, gs[f].1@.len() as int, i)); } else { assert(some_listed(gs, i)); let (g, j) = choose|g: int, j: int| #[trigger] listed(gs, g, j, i); assert(group_ok(a, l, o, e, gs[g])); assert(hs[g].1@[j] == gs[g].1@[j]); assert(listed(hs, g, j, i)); } }
}
pub proof fn l_grouped_new(a: Invariant, l: Seq<Position>, o: int, e: int, gs: Seq<(Pool, Vec<(Position, u32)>)>, n: (Pool, Vec<(Position, u32)>))
    requires grouped(a, l, o, e, gs), 0 <= o <= e < l.len(), e < u32::MAX, a.has_pool(l[e].pool_key), n.0 == a.pool(l[e].pool_key), n.1@ == seq![(l[e], e as u32)], forall|g: int| 0 <= g < gs.len() ==> #[trigger] gs[g].1@[0].0.pool_key != l[e].pool_key
    ensures grouped(a, l, o, e + 1, gs.push(n))
{
    let hs = gs.push(n);
    assert forall|g: int| #![trigger hs[g]] 0 <= g < hs.len() implies group_ok(a, l, o, e + 1, hs[g]) by { if g < gs.len() { assert(group_ok(a, l, o, e, gs[g])); } }
    assert forall|g: int, h: int| #![trigger hs[g], hs[h]] 0 <= g < h < hs.len() implies hs[g].1@[0].0.pool_key != hs[h].1@[0].0.pool_key by { assert(hs[g] == gs[g]); if h < gs.len() { assert(hs[h] == gs[h]); } }
    assert forall|i: int| o <= i < e + 1 implies #[trigger] some_listed(hs, i) by { if i == e { assert(listed(hs, gs.len() as int, 0, i)); } else { assert(some_listed(gs, i)); let (g, j) = choose|g: int, j: int| #[trigger] listed(gs, g, j, i); assert(hs[g] == gs[g]); assert(listed(hs, g, j, i)); } }
}
//@fn src/invariant_service.rs InvariantService::get_positions -> r svc
    requires old(invariant).wf()
    ensures *final(invariant) == *old(invariant), match r { Ok((gs, n)) => ({ let l = old(invariant).positions.list(owner_id); n as int == l.len() && grouped(*old(invariant), l, offset as int, offset + page(l, offset as int, size as int).len(), gs@) }), Err(_) => false }
//@pre
    let ghost a = *invariant; let ghost l = a.positions.list(owner_id); let ghost o = offset as int;
//@after positions
    let ghost ps = positions@;
//@loop 0
    invariant *invariant == a, a.wf(), l == a.positions.list(owner_id), o == offset, ps == __v0@, ps == page(l, o, size as int), l.len() <= u32::MAX, __k0 <= ps.len(), grouped(a, l, o, o + __k0, grouped_positions@)
    decreases ps.len() - __k0
//@loopin 0
    let ghost gs0 = grouped_positions@; proof { assert(ps[__k0 as int] == l[o + __k0]); let m = a.positions.positions.m(); let x = (owner_id, (o + __k0) as u32); assert(m.dom().contains(x)); l_sums_pos(m, a.ticks, a.pools, x); assert(l[o + __k0] == m[x]); }
//@loop 1
    invariant gs0 == grouped_positions@, __f1 <= gs0.len(), grouped(a, l, o, o + __k0, gs0), forall|g: int| 0 <= g < __f1 ==> #[trigger] gs0[g].1@[0].0.pool_key != position.pool_key, __h1 ==> __f1 < gs0.len() && gs0[__f1 as int].1@[0].0.pool_key == position.pool_key
    decreases gs0.len() - __f1 + (if __h1 { 0int } else { 1int })
//@loopend 0
    proof { let e = o + __k0 - 1; let hs = grouped_positions@; let n = gs0.len() as int;
        if hs.len() > n { assert(hs =~= gs0.push(hs[n])); assert(hs[n].1@ =~= seq![(l[e], e as u32)]); l_grouped_new(a, l, o, e, gs0, hs[n]); }
        else { let f = choose|f: int| 0 <= f < n && #[trigger] gs0[f].1@[0].0.pool_key == l[e].pool_key; l_grouped_more(a, l, o, e, gs0, hs, f); } }
//@end
