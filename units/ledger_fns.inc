pub open spec fn lbal(b: HMap<ActorId, HMap<ActorId, TokenAmount>>, u: ActorId, t: ActorId) -> int { if b.m().dom().contains(u) && b.m()[u].m().dom().contains(t) { b.m()[u].m()[t].d() } else { 0 } }
pub open spec fn lwf(b: HMap<ActorId, HMap<ActorId, TokenAmount>>) -> bool { forall|u: ActorId, t: ActorId| #![trigger b.m()[u].m()[t]] #![trigger b.m()[u].m().dom().contains(t)] b.m().dom().contains(u) && b.m()[u].m().dom().contains(t) ==> b.m()[u].m()[t].d() > 0 }
impl Invariant {
    pub open spec fn holds(&self, u: ActorId, t: ActorId) -> bool { self.balances.m().dom().contains(u) && self.balances.m()[u].m().dom().contains(t) }
    /// balance of user u in token t
    pub open spec fn bal(&self, u: ActorId, t: ActorId) -> int { lbal(self.balances, u, t) }
    /// only non-zero balances are kept
    pub open spec fn ledger_wf(&self) -> bool { lwf(self.balances) }
    /// everything else
    pub open spec fn same_but_balances(&self, o: &Invariant) -> bool { *self == (Invariant { balances: self.balances, ..*o }) }
    pub open spec fn same_balances(&self, o: &Invariant) -> bool { forall|u: ActorId, t: ActorId| #[trigger] lbal(self.balances, u, t) == lbal(o.balances, u, t) }
    pub open spec fn only_bal(&self, o: &Invariant, u: ActorId, t: ActorId, v: int) -> bool { forall|a: ActorId, b: ActorId| #[trigger] lbal(self.balances, a, b) == (if a == u && b == t { v } else { lbal(o.balances, a, b) }) }
}
//@fn src/invariant_storage.rs Invariant::increase_token_balance -> r
    requires old(self).ledger_wf()
    ensures final(self).ledger_wf(), final(self).same_but_balances(old(self)), match r { Ok(_) => old(self).bal(*caller, *token) + amount.d() <= U256::umax() && final(self).only_bal(old(self), *caller, *token, old(self).bal(*caller, *token) + amount.d()),
        Err(_) => final(self).same_balances(old(self)) && old(self).bal(*caller, *token) + amount.d() > U256::umax() }
//@pre
    proof { broadcast use uint_ranges; reveal(u256_val); }
//@end
//@fn src/invariant_storage.rs Invariant::can_increase_token_balance -> r and_then_option
    ensures r == (self.bal(*caller, *token) + amount.d() <= U256::umax())
//@pre
    proof { broadcast use uint_ranges; reveal(u256_val); }
//@end
//@fn src/invariant_storage.rs Invariant::decrease_token_balance -> r rlimit=60
    requires old(self).ledger_wf()
    ensures final(self).ledger_wf(), final(self).same_but_balances(old(self)), match r {
        Ok(x) => x.d() == (match amount { Some(a) => a.d(), None => old(self).bal(*caller, *token) }) && x.d() <= old(self).bal(*caller, *token) && final(self).only_bal(old(self), *caller, *token, old(self).bal(*caller, *token) - x.d()),
        Err(_) => final(self).same_balances(old(self)) && (match amount { Some(a) => a.d() > old(self).bal(*caller, *token), None => old(self).bal(*caller, *token) == 0 }) }
//@pre
    proof { broadcast use uint_ranges; reveal(u256_val); }
//@tail
    proof { let (o, n, u, t) = (*old(self), *self, *caller, *token);
        assert forall|a: ActorId, b: ActorId| #[trigger] lbal(n.balances, a, b) == (if a == u && b == t { o.bal(u, t) - __tail->Ok_0.d() } else { o.bal(a, b) }) by {
            if a == u { let m = o.balances.m()[u].m(); if remove_balance { assert(!m.remove(t).dom().contains(b)); } } } }
//@end
