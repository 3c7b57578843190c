// ---- positions: per account a list; index i < length is present, nothing else is
//@struct src/contracts/collections/positions.rs Positions
impl Positions {
    pub open spec fn len(&self, a: ActorId) -> int { if self.positions_length.m().dom().contains(a) { self.positions_length.m()[a] as int } else { 0 } }
    pub open spec fn wf(&self) -> bool { forall|a: ActorId, i: u32| #[trigger] self.positions.m().dom().contains((a, i)) <==> i < self.len(a) }
    /// the positions of an account, in order
    pub open spec fn list(&self, a: ActorId) -> Seq<Position> { Seq::new(self.len(a) as nat, |i: int| self.positions.m()[(a, i as u32)]) }
}
//@fn src/contracts/collections/positions.rs Positions::get_length -> r
    ensures r as int == self.len(*account_id), self.list(*account_id).len() == r
//@end
//@fn src/contracts/collections/positions.rs Positions::get -> r
    requires self.wf()
    ensures match r { Ok(p) => index < self.len(*account_id) && *p == self.list(*account_id)[index as int], Err(_) => index >= self.len(*account_id) }
//@end
//@fn src/contracts/collections/positions.rs Positions::add
    requires old(self).wf(), old(self).len(*account_id) < u32::MAX
    ensures final(self).wf(), final(self).list(*account_id) == old(self).list(*account_id).push(*position), forall|b: ActorId| b != *account_id ==> #[trigger] final(self).list(b) == old(self).list(b)
//@tail
    proof { assert(self.list(*account_id) =~= old(self).list(*account_id).push(*position)); assert forall|b: ActorId| b != *account_id implies #[trigger] self.list(b) == old(self).list(b) by { assert(self.list(b) =~= old(self).list(b)); } }
//@end
//@fn src/contracts/collections/positions.rs Positions::update -> r
    requires old(self).wf()
    ensures final(self).wf(), forall|b: ActorId| b != *account_id ==> #[trigger] final(self).list(b) == old(self).list(b),
        match r { Ok(_) => index < old(self).len(*account_id) && final(self).list(*account_id) == old(self).list(*account_id).update(index as int, *position), Err(_) => index >= old(self).len(*account_id) && *final(self) == *old(self) }
//@tail
    proof { assert(self.list(*account_id) =~= old(self).list(*account_id).update(index as int, *position)); assert forall|b: ActorId| b != *account_id implies #[trigger] self.list(b) == old(self).list(b) by { assert(self.list(b) =~= old(self).list(b)); } }
//@end
/// the last one fills the gap
pub open spec fn swap_out(l: Seq<Position>, i: int) -> Seq<Position> { if i < l.len() - 1 { l.update(i, l.last()).drop_last() } else { l.drop_last() } }
/// exactly the chosen one is gone
pub proof fn l_swap_out(l: Seq<Position>, i: int) requires 0 <= i < l.len() ensures swap_out(l, i).to_multiset() == l.to_multiset().remove(l[i]), swap_out(l, i).len() == l.len() - 1 {
    let n = l.len() - 1; let last = l[n];
    l.to_multiset_ensures(); let d = l.drop_last();
    assert(l =~= d.push(last)); d.to_multiset_ensures(); assert(l.to_multiset() == d.to_multiset().insert(last));
    if i < n { d.to_multiset_ensures(); assert(l.update(i, last).drop_last() =~= d.update(i, last)); vstd::seq_lib::to_multiset_update(d, i, last); assert(d.to_multiset().contains(d[i])) by { d.to_multiset_ensures(); assert(d.contains(d[i])); } 
        assert(d.to_multiset().insert(last).remove(d[i]) =~= d.to_multiset().remove(d[i]).insert(last)); }
    else { assert(d.to_multiset().insert(last).remove(last) =~= d.to_multiset()); }
}
//@fn src/contracts/collections/positions.rs Positions::remove -> r
    requires old(self).wf()
    ensures final(self).wf(), forall|b: ActorId| b != *account_id ==> #[trigger] final(self).list(b) == old(self).list(b),
        match r { Ok(p) => index < old(self).len(*account_id) && p == old(self).list(*account_id)[index as int] && final(self).list(*account_id) == swap_out(old(self).list(*account_id), index as int), Err(_) => index >= old(self).len(*account_id) && *final(self) == *old(self) }
//@tail
    proof { assert(self.list(*account_id) =~= swap_out(old(self).list(*account_id), index as int)); assert forall|b: ActorId| b != *account_id implies #[trigger] self.list(b) == old(self).list(b) by { assert(self.list(b) =~= old(self).list(b)); } }
//@end
//@fn src/contracts/collections/positions.rs Positions::transfer -> r
    requires old(self).wf(), old(self).len(*receiver_account_id) < u32::MAX
    ensures final(self).wf(), forall|b: ActorId| b != *account_id && b != *receiver_account_id ==> #[trigger] final(self).list(b) == old(self).list(b),
        match r { Ok(_) => index < old(self).len(*account_id) && ({ let (l, p) = (swap_out(old(self).list(*account_id), index as int), old(self).list(*account_id)[index as int]);
                if *account_id == *receiver_account_id { final(self).list(*account_id) == l.push(p) } else { final(self).list(*account_id) == l && final(self).list(*receiver_account_id) == old(self).list(*receiver_account_id).push(p) } }),
            Err(_) => index >= old(self).len(*account_id) && *final(self) == *old(self) }
//@after position
    proof { assert(self.list(*receiver_account_id).len() == self.len(*receiver_account_id)); assert(old(self).list(*receiver_account_id).len() == old(self).len(*receiver_account_id)); }
//@end
//@fn src/contracts/collections/positions.rs Positions::get_all -> r
    requires self.wf()
    ensures r@ == self.list(*account_id)
//@loop 0
    invariant self.wf(), __end as int == self.len(*account_id), index <= __end, __c@ == self.list(*account_id).subrange(0, index as int)
    decreases __end - index
//@loopend 0
    proof { assert(self.list(*account_id).subrange(0, index as int) =~= self.list(*account_id).subrange(0, index as int - 1).push(self.list(*account_id)[index as int - 1])); }
//@end
//@fn src/contracts/collections/positions.rs Positions::get_slice -> r
    requires self.wf()
    ensures offset as int + size as int <= u32::MAX, r@ == (if offset as int + size as int <= self.len(*account_id) { self.list(*account_id).subrange(offset as int, offset as int + size as int) } else if offset as int <= self.len(*account_id) { self.list(*account_id).skip(offset as int) } else { Seq::empty() })
//@loop 0
    invariant self.wf(), __end as int == (if offset as int + size as int <= self.len(*account_id) { offset as int + size as int } else { self.len(*account_id) }), offset <= index, index <= __end || index == offset, if offset <= __end { __c@ == self.list(*account_id).subrange(offset as int, index as int) } else { __c@.len() == 0 }
    decreases __end - index
//@loopend 0
    proof { assert(self.list(*account_id).subrange(offset as int, index as int) =~= self.list(*account_id).subrange(offset as int, index as int - 1).push(self.list(*account_id)[index as int - 1])); }
//@tail
    proof { let l = self.list(*account_id); if offset as int <= l.len() { assert(l.skip(offset as int) =~= l.subrange(offset as int, l.len() as int)); }
        assert(__tail@ =~= (if offset as int + size as int <= self.len(*account_id) { l.subrange(offset as int, offset as int + size as int) } else if offset as int <= self.len(*account_id) { l.skip(offset as int) } else { Seq::empty() })); }
//@end
// ---- pools
//@struct src/contracts/collections/pools.rs Pools
//@fn src/contracts/collections/pools.rs Pools::get -> r
    ensures match r { Ok(p) => self.pools.m().dom().contains(*pool_key) && p == self.pools.m()[*pool_key], Err(_) => !self.pools.m().dom().contains(*pool_key) }
//@end
//@fn src/contracts/collections/pools.rs Pools::add -> r
    ensures match r { Ok(_) => !old(self).pools.m().dom().contains(*pool_key) && final(self).pools.m() == old(self).pools.m().insert(*pool_key, *pool), Err(_) => old(self).pools.m().dom().contains(*pool_key) && *final(self) == *old(self) }
//@end
//@fn src/contracts/collections/pools.rs Pools::update -> r
    ensures match r { Ok(_) => old(self).pools.m().dom().contains(*pool_key) && final(self).pools.m() == old(self).pools.m().insert(*pool_key, *pool), Err(_) => !old(self).pools.m().dom().contains(*pool_key) && *final(self) == *old(self) }
//@end
//@fn src/contracts/collections/pools.rs Pools::remove -> r
    ensures match r { Ok(_) => old(self).pools.m().dom().contains(*pool_key) && final(self).pools.m() == old(self).pools.m().remove(*pool_key), Err(_) => !old(self).pools.m().dom().contains(*pool_key) && *final(self) == *old(self) }
//@end
// ---- ticks
//@struct src/contracts/collections/ticks.rs Ticks
//@fn src/contracts/collections/ticks.rs Ticks::get -> r
    ensures match r { Ok(t) => self.ticks.m().dom().contains((pool_key, index)) && *t == self.ticks.m()[(pool_key, index)], Err(_) => !self.ticks.m().dom().contains((pool_key, index)) }
//@end
//@fn src/contracts/collections/ticks.rs Ticks::add -> r
    ensures match r { Ok(_) => !old(self).ticks.m().dom().contains((pool_key, index)) && final(self).ticks.m() == old(self).ticks.m().insert((pool_key, index), tick), Err(_) => old(self).ticks.m().dom().contains((pool_key, index)) && *final(self) == *old(self) }
//@end
//@fn src/contracts/collections/ticks.rs Ticks::update -> r
    ensures match r { Ok(_) => old(self).ticks.m().dom().contains((pool_key, index)) && final(self).ticks.m() == old(self).ticks.m().insert((pool_key, index), tick), Err(_) => !old(self).ticks.m().dom().contains((pool_key, index)) && *final(self) == *old(self) }
//@end
//@fn src/contracts/collections/ticks.rs Ticks::remove -> r
    ensures match r { Ok(_) => old(self).ticks.m().dom().contains((pool_key, index)) && final(self).ticks.m() == old(self).ticks.m().remove((pool_key, index)), Err(_) => !old(self).ticks.m().dom().contains((pool_key, index)) && *final(self) == *old(self) }
//@end
// ---- pool keys: a set with a gapless numbering
//@struct src/contracts/collections/pool_keys.rs PoolKeys
impl PoolKeys {
    pub open spec fn has(&self, k: PoolKey) -> bool { self.pool_keys.m().dom().contains(k) }
    pub open spec fn wf(&self) -> bool {
        &&& forall|i: u16| #[trigger] self.pool_keys_by_index.m().dom().contains(i) <==> i < self.pool_keys_length
        &&& forall|i: u16| #![trigger self.pool_keys_by_index.m()[i]] i < self.pool_keys_length ==> self.has(self.pool_keys_by_index.m()[i]) && self.pool_keys.m()[self.pool_keys_by_index.m()[i]] == i
        &&& forall|k: PoolKey| #[trigger] self.has(k) ==> self.pool_keys.m()[k] < self.pool_keys_length && self.pool_keys_by_index.m()[self.pool_keys.m()[k]] == k
    }
    /// every registered key, once
    pub open spec fn list(&self) -> Seq<PoolKey> { Seq::new(self.pool_keys_length as nat, |i: int| self.pool_keys_by_index.m()[i as u16]) }
    pub proof fn l_list(&self) requires self.wf() ensures self.list().no_duplicates(), forall|k: PoolKey| #[trigger] self.list().contains(k) <==> self.has(k) {
        let l = self.list();
        assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by { let (a, b) = (i as u16, j as u16); assert(self.pool_keys.m()[self.pool_keys_by_index.m()[a]] == a && self.pool_keys.m()[self.pool_keys_by_index.m()[b]] == b); }
        assert forall|k: PoolKey| #[trigger] l.contains(k) <==> self.has(k) by {
            if self.has(k) { assert(l[self.pool_keys.m()[k] as int] == k); }
            if l.contains(k) { let i = choose|i: int| 0 <= i < l.len() && l[i] == k; assert(self.pool_keys_by_index.m()[i as u16] == k); }
        }
    }
}
//@fn src/contracts/collections/pool_keys.rs PoolKeys::get_index -> r
    ensures match r { Some(i) => self.has(*pool_key) && i == self.pool_keys.m()[*pool_key], None => !self.has(*pool_key) }
//@end
//@fn src/contracts/collections/pool_keys.rs PoolKeys::contains -> r
    ensures r == self.has(*pool_key)
//@end
//@fn src/contracts/collections/pool_keys.rs PoolKeys::count -> r
    ensures r == self.pool_keys_length, self.list().len() == r
//@end
//@fn src/contracts/collections/pool_keys.rs PoolKeys::add -> r
    requires old(self).wf(), old(self).pool_keys_length < u16::MAX
    ensures final(self).wf(), match r { Ok(_) => !old(self).has(*pool_key) && (forall|k: PoolKey| #[trigger] final(self).has(k) <==> old(self).has(k) || k == *pool_key) && final(self).list() == old(self).list().push(*pool_key), Err(_) => old(self).has(*pool_key) && *final(self) == *old(self) }
//@tail
    proof { assert(self.list() =~= old(self).list().push(*pool_key)); let (o, n) = (*old(self), *self); let len = o.pool_keys_length;
        assert forall|i: u16| #![trigger n.pool_keys_by_index.m()[i]] i < n.pool_keys_length implies n.has(n.pool_keys_by_index.m()[i]) && n.pool_keys.m()[n.pool_keys_by_index.m()[i]] == i by { if i < len { let k = o.pool_keys_by_index.m()[i]; assert(o.has(k)); assert(k != *pool_key); } }
        assert forall|k: PoolKey| #[trigger] n.has(k) implies n.pool_keys.m()[k] < n.pool_keys_length && n.pool_keys_by_index.m()[n.pool_keys.m()[k]] == k by { if k != *pool_key { assert(o.has(k)); } }
        assert forall|k: PoolKey| #[trigger] n.has(k) <==> o.has(k) || k == *pool_key by {} }
//@end
//@fn src/contracts/collections/pool_keys.rs PoolKeys::remove -> r
    requires old(self).wf()
    ensures final(self).wf(), match r { Ok(_) => old(self).has(*pool_key) && (forall|k: PoolKey| #[trigger] final(self).has(k) <==> old(self).has(k) && k != *pool_key), Err(_) => !old(self).has(*pool_key) && *final(self) == *old(self) }
//@tail
    proof { let (o, n) = (*old(self), *self); if o.has(*pool_key) {
        let at = o.pool_keys.m()[*pool_key]; let last = (o.pool_keys_length - 1) as u16; let lk = o.pool_keys_by_index.m()[last];
        assert(o.has(lk) && o.pool_keys.m()[lk] == last && o.pool_keys_by_index.m()[at] == *pool_key);
        assert forall|k: PoolKey| #[trigger] n.has(k) <==> o.has(k) && k != *pool_key by {}
        assert forall|i: u16| #![trigger n.pool_keys_by_index.m()[i]] i < n.pool_keys_length implies n.has(n.pool_keys_by_index.m()[i]) && n.pool_keys.m()[n.pool_keys_by_index.m()[i]] == i by { let k = o.pool_keys_by_index.m()[i]; assert(o.has(k) && o.pool_keys.m()[k] == i); if i == at { assert(n.has(lk)); } else { assert(n.has(k)); } }
        assert forall|k: PoolKey| #[trigger] n.has(k) implies n.pool_keys.m()[k] < n.pool_keys_length && n.pool_keys_by_index.m()[n.pool_keys.m()[k]] == k by { assert(o.has(k)); }
    } }
//@end
//@fn src/contracts/collections/pool_keys.rs PoolKeys::get_all -> r
    requires self.wf()
    ensures offset as int + size as int <= u16::MAX, r@ == (if offset as int + size as int <= self.list().len() { self.list().subrange(offset as int, offset as int + size as int) } else if offset as int <= self.list().len() { self.list().skip(offset as int) } else { Seq::empty() })
//@loop 0
    invariant self.wf(), __end as int == (if offset as int + size as int <= self.list().len() { offset as int + size as int } else { self.list().len() as int }), offset <= index, index <= __end || index == offset, if offset <= __end { __c@ == self.list().subrange(offset as int, index as int) } else { __c@.len() == 0 }
    decreases __end - index
//@loopend 0
    proof { assert(self.list().subrange(offset as int, index as int) =~= self.list().subrange(offset as int, index as int - 1).push(self.list()[index as int - 1])); }
//@tail
    proof { let l = self.list(); if offset as int <= l.len() { assert(l.skip(offset as int) =~= l.subrange(offset as int, l.len() as int)); }
        assert(__tail@ =~= (if offset as int + size as int <= l.len() { l.subrange(offset as int, offset as int + size as int) } else if offset as int <= l.len() { l.skip(offset as int) } else { Seq::empty() })); }
//@end
// ---- fee tiers: a list without repetitions
//@struct src/contracts/collections/fee_tiers.rs FeeTiers
impl FeeTiers { pub open spec fn wf(&self) -> bool { self.fee_tiers@.no_duplicates() } }
//@fn src/contracts/collections/fee_tiers.rs FeeTiers::contains -> r
    ensures r == self.fee_tiers@.contains(*fee_tier)
//@end
//@fn src/contracts/collections/fee_tiers.rs FeeTiers::get_all -> r
    ensures r@ == self.fee_tiers@
//@end
//@fn src/contracts/collections/fee_tiers.rs FeeTiers::add -> r
    requires old(self).wf()
    ensures final(self).wf(), match r { Ok(_) => !old(self).fee_tiers@.contains(*fee_tier) && final(self).fee_tiers@ == old(self).fee_tiers@.push(*fee_tier), Err(_) => old(self).fee_tiers@.contains(*fee_tier) && *final(self) == *old(self) }
//@end
//@fn src/contracts/collections/fee_tiers.rs FeeTiers::remove -> r
    requires old(self).wf()
    ensures final(self).wf(), match r { Ok(_) => old(self).fee_tiers@.contains(*fee_tier) && !final(self).fee_tiers@.contains(*fee_tier) && (forall|t: FeeTier| t != *fee_tier ==> (#[trigger] final(self).fee_tiers@.contains(t) <==> old(self).fee_tiers@.contains(t))) && final(self).fee_tiers@.len() == old(self).fee_tiers@.len() - 1,
        Err(_) => !old(self).fee_tiers@.contains(*fee_tier) && *final(self) == *old(self) }
//@loop 0
    invariant __i <= self.fee_tiers@.len(), forall|j: int| 0 <= j < __i ==> self.fee_tiers@[j] != *fee_tier, match __r { Some(x) => x < self.fee_tiers@.len() && self.fee_tiers@[x as int] == *fee_tier, None => true }
    decreases self.fee_tiers@.len() - __i + (if __r.is_none() { 1int } else { 0 })
//@tail
    proof { let (o, n) = (old(self).fee_tiers@, self.fee_tiers@); let i = index as int; assert(n == o.remove(i));
        assert forall|t: FeeTier| t != *fee_tier implies (#[trigger] n.contains(t) <==> o.contains(t)) by { if o.contains(t) { let j = choose|j: int| 0 <= j < o.len() && o[j] == t; assert(n[if j < i { j } else { j - 1 }] == t); } }
        if n.contains(*fee_tier) { let j = choose|j: int| 0 <= j < n.len() && n[j] == *fee_tier; assert(o[if j < i { j } else { j + 1 }] == *fee_tier); }
        assert forall|a: int, b: int| 0 <= a < n.len() && 0 <= b < n.len() && a != b implies n[a] != n[b] by { assert(n[a] == o[if a < i { a } else { a + 1 }]); assert(n[b] == o[if b < i { b } else { b + 1 }]); } }
//@end
// ---- identity of a pool
//@fn src/contracts/storage/pool_key.rs PoolKey::new -> r
    ensures match r { Ok(k) => token_0 != token_1 && k.fee_tier == fee_tier && k.token_x.key() < k.token_y.key() && ((k.token_x == token_0 && k.token_y == token_1) || (k.token_x == token_1 && k.token_y == token_0)), Err(_) => token_0 == token_1 }
//@pre
    proof { l_actor(token_0, token_1); }
//@end
/// both orders of the tokens give the same key, and different pairs or tiers give different keys
pub proof fn l_pool_key(a: ActorId, b: ActorId, t: FeeTier, j: PoolKey, k: PoolKey)
    requires a != b, j.fee_tier == t, k.fee_tier == t, j.token_x.key() < j.token_y.key(), k.token_x.key() < k.token_y.key(), (j.token_x == a && j.token_y == b) || (j.token_x == b && j.token_y == a), (k.token_x == a && k.token_y == b) || (k.token_x == b && k.token_y == a)
    ensures j == k {}
//@fn src/contracts/storage/fee_tier.rs FeeTier::new -> r
    ensures match r { Ok(f) => f.fee == fee && f.tick_spacing == tick_spacing && 1 <= tick_spacing <= 100 && fee.d() <= E12, Err(_) => tick_spacing == 0 || tick_spacing > 100 || fee.d() > E12 }
//@end
// ---- the empty registries (derived Default: empty maps, zero length) satisfy the invariants
pub proof fn l_empty(p: Positions, k: PoolKeys, f: FeeTiers) requires p.positions.m() == Map::<(ActorId, u32), Position>::empty(), p.positions_length.m() == Map::<ActorId, u32>::empty(), k.pool_keys.m() == Map::<PoolKey, u16>::empty(), k.pool_keys_by_index.m() == Map::<u16, PoolKey>::empty(), k.pool_keys_length == 0, f.fee_tiers@.len() == 0 ensures p.wf(), k.wf(), f.wf() {}
