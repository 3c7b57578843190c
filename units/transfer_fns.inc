//@const src/invariant_service.rs TRANSFER_GAS_LIMIT
//@const src/invariant_service.rs TRANSFER_REPLY_HANDLING_COST
//@const src/invariant_service.rs BALANCE_CHANGE_COST
//@const src/invariant_service.rs TRANSFER_COST
//@const src/invariant_service.rs VARA_ADDRESS ensures VARA_ADDRESS == ActorId::zero_id()
impl Invariant {
    /// everything but the transfers under way
    pub open spec fn same_but_awaiting(&self, o: &Invariant) -> bool { *self == (Invariant { awaiting_transfers: self.awaiting_transfers, ..*o }) }
    pub open spec fn same_but_money(&self, o: &Invariant) -> bool { *self == (Invariant { awaiting_transfers: self.awaiting_transfers, balances: self.balances, ..*o }) }
    pub open spec fn aw(&self) -> Map<(MessageId, ActorId), AwaitingTransfer> { self.awaiting_transfers.m() }
}
/// the booked request, and nothing else
pub open spec fn booked(a: Invariant, b: Invariant, id: MessageId, tok: ActorId, who: ActorId, amt: TokenAmount, ty: TransferType) -> bool {
    b.same_but_awaiting(&a) && b.aw() == a.aw().insert((id, tok), AwaitingTransfer { account: who, amount: amt, transfer_type: ty })
}
pub open spec fn from_of(ty: TransferType, who: ActorId) -> ActorId { match ty { TransferType::Deposit => who, TransferType::Withdrawal => this_program() } }
pub open spec fn to_of(ty: TransferType, who: ActorId) -> ActorId { match ty { TransferType::Deposit => this_program(), TransferType::Withdrawal => who } }
pub open spec fn request(f: ActorId, t: ActorId, amt: TokenAmount) -> Seq<u8> { enc_str("Vft"@) + enc_str("TransferFrom"@) + enc_actor(f) + enc_actor(t) + enc_amount(amt) }
/// the message is the transfer asked for, to that token, without coins, and its reply is booked under its own number
pub open spec fn right_message(m: CodecMessageFuture<TokenTransferResponse>, tok: ActorId, f: ActorId, t: ActorId, amt: TokenAmount) -> bool {
    m.dest@ == tok && m.payload@ == request(f, t, amt) && m.coins@ == 0 && m.hook@ == Some((tok, m.waiting_reply_to))
}
//@fn src/invariant_service.rs InvariantService::send_transfer_token_message -> r svc
    ensures match r {
        Ok(m) => amount.d() != 0 && *from != *to && right_message(m, *token_address, *from, *to, amount)
            && booked(*old(invariant), *final(invariant), m.waiting_reply_to, *token_address, (match transfer_type { TransferType::Deposit => *from, TransferType::Withdrawal => *to }), amount, transfer_type),
        Err(_) => *final(invariant) == *old(invariant) }
//@end
//@fn src/invariant_service.rs InvariantService::handle_transfer_result -> r svc
    ensures final(invariant).same_but_awaiting(old(invariant)), final(invariant).aw() == old(invariant).aw().remove((message_id, token)),
        (r == Err::<(), InvariantError>(InvariantError::ReplyHandlingFailed)) <==> old(invariant).aw().dom().contains((message_id, token)),
        r is Ok <==> !old(invariant).aw().dom().contains((message_id, token)) && message is Ok && message->Ok_0.2
//@end
/// what a reply does to the ledger: a confirmed deposit is credited, a refused withdrawal given back, once
pub open spec fn replied(a: Invariant, b: Invariant, id: MessageId, tok: ActorId, credit_deposit: bool, credit_withdrawal: bool) -> bool {
    b.same_but_money(&a) && b.aw() =~= a.aw().remove((id, tok)) && (
        if a.aw().dom().contains((id, tok)) && (match a.aw()[(id, tok)].transfer_type { TransferType::Deposit => credit_deposit, TransferType::Withdrawal => credit_withdrawal }) {
            let t = a.aw()[(id, tok)];
            if a.bal(t.account, tok) + t.amount.d() <= U256::umax() { b.only_bal(&a, t.account, tok, a.bal(t.account, tok) + t.amount.d()) } else { b.same_balances(&a) }
        } else { b.same_balances(&a) })
}
//@fn src/invariant_service.rs handle_valid_reply svc and_then_option
    requires old(invariant).ledger_wf()
    ensures final(invariant).ledger_wf(), replied(*old(invariant), *final(invariant), message, token, result, !result)
//@end
//@fn src/invariant_service.rs handle_panic svc and_then_option
    requires old(invariant).ledger_wf()
    ensures final(invariant).ledger_wf(), replied(*old(invariant), *final(invariant), message, token, false, true)
//@end
pub open spec fn reply_shape() -> bool { loaded::<(VString, VString, bool)>() is Some }
//@fn src/invariant_service.rs reply_handler svc
    requires old(invariant).ledger_wf()
    ensures final(invariant).ledger_wf(),
        match loaded::<(VString, VString, bool)>() {
            Some(m) => if text(m.0) == "Vft"@ && text(m.1) == "TransferFrom"@ { replied(*old(invariant), *final(invariant), msg_id, token, m.2, !m.2) } else { *final(invariant) == *old(invariant) },
            None => if loaded::<VString>() is Some { replied(*old(invariant), *final(invariant), msg_id, token, false, true) } else { *final(invariant) == *old(invariant) } }
//@end

pub open spec fn is_entry(e: AwaitingTransfer, who: ActorId, amt: int, ty: TransferType) -> bool { e.account == who && e.amount.d() == amt && e.transfer_type == ty }
/// one sleep with n requests under way; what is found on waking is left as it is
pub open spec fn one_sleep(b: Invariant, l: Seq<Sleep>, k: Seq<Sleep>, n: int) -> bool {
    k.len() == l.len() + 1 && k == l.push(k.last()) && k.last().ids.len() == n && b.same_but_awaiting(&k.last().woke) && b.aw() =~= k.last().woke.aw()
}
pub open spec fn may_send(tok: ActorId, who: ActorId, amt: int, ty: TransferType) -> bool { amt != 0 && tok != ActorId::zero_id() && from_of(ty, who) != to_of(ty, who) }
/// the request is booked before the program sleeps, exactly once, and a withdrawal has left the balance (taken)
pub open spec fn one_transfer(a: Invariant, b: Invariant, l: Seq<Sleep>, k: Seq<Sleep>, tok: ActorId, who: ActorId, amt: int, ty: TransferType, taken: int) -> bool {
    one_sleep(b, l, k, 1) && may_send(tok, who, amt, ty) && ({ let s = k.last().slept; s.ledger_wf() && s.same_but_money(&a) && s.only_bal(&a, who, tok, a.bal(who, tok) - taken)
        && ({ let q = (k.last().ids[0], tok); is_entry(s.aw()[q], who, amt, ty) && s.aw() == a.aw().insert(q, s.aw()[q]) }) })
}
//@if solv
//@else
pub open spec fn pair_taken(s: Invariant, a: Invariant, who: ActorId, x: ActorId, tx: int, y: ActorId, ty: int) -> bool {
    forall|u: ActorId, t: ActorId| #[trigger] lbal(s.balances, u, t) == (if u == who && t == x { lbal(a.balances, u, t) - tx } else if u == who && t == y { lbal(a.balances, u, t) - ty } else { lbal(a.balances, u, t) })
}
//@fi
pub open spec fn two_transfers(a: Invariant, b: Invariant, l: Seq<Sleep>, k: Seq<Sleep>, x: ActorId, ax: int, y: ActorId, ay: int, who: ActorId, ty: TransferType, tx: int, tyy: int) -> bool {
    one_sleep(b, l, k, 2) && may_send(x, who, ax, ty) && may_send(y, who, ay, ty) && ({ let s = k.last().slept; s.ledger_wf() && s.same_but_money(&a) && pair_taken(s, a, who, x, tx, y, tyy)
        && ({ let (q, r) = ((k.last().ids[0], x), (k.last().ids[1], y)); is_entry(s.aw()[q], who, ax, ty) && is_entry(s.aw()[r], who, ay, ty) && s.aw() == a.aw().insert(q, s.aw()[q]).insert(r, s.aw()[r]) }) })
}
//@fn src/invariant_service.rs InvariantService::transfer_single_token -> r svc
    requires old(invariant).ledger_wf()
    ensures
        final(invariant).ledger_wf(),
        final(vlog).v() != old(vlog).v() ==> one_transfer(*old(invariant), *final(invariant), old(vlog).v(), final(vlog).v(), *token, *caller, amount.d(), transfer_type, 0),
        r is Ok ==> final(vlog).v() != old(vlog).v()
//@atleave
    assert(vlog.v() != old(vlog).v()); assert(invariant.ledger_wf());
    assert({ let k = vlog.v(); one_transfer(*old(invariant), k.last().woke, old(vlog).v(), k, *token, *caller, amount.d(), transfer_type, 0) && invariant.same_but_awaiting(&k.last().woke) && invariant.aw() == k.last().woke.aw().remove((k.last().ids[0], *token)) });
//@end
//@fn src/invariant_service.rs InvariantService::transfer_token_pair -> r svc
    requires old(invariant).ledger_wf(), token_x.0 != token_y.0
    ensures
        final(invariant).ledger_wf(),
        final(vlog).v() != old(vlog).v() ==> two_transfers(*old(invariant), *final(invariant), old(vlog).v(), final(vlog).v(), token_x.0, token_x.1.d(), token_y.0, token_y.1.d(), *caller, transfer_type, 0, 0),
        r is Ok ==> final(vlog).v() != old(vlog).v()
//@atleave
    assert(vlog.v() != old(vlog).v()); assert(invariant.ledger_wf());
    assert({ let k = vlog.v(); two_transfers(*old(invariant), k.last().woke, old(vlog).v(), k, token_x.0, token_x.1.d(), token_y.0, token_y.1.d(), *caller, transfer_type, 0, 0)
        && invariant.same_but_awaiting(&k.last().woke) && invariant.aw() =~= k.last().woke.aw().remove((k.last().ids[0], token_x.0)).remove((k.last().ids[1], token_y.0)) });
//@end
//@fn src/invariant_service.rs InvariantService::deposit_single_token -> r svc
    requires old(invariant).ledger_wf()
    ensures
        final(invariant).ledger_wf(),
        final(vlog).v() != old(vlog).v() ==> one_transfer(*old(invariant), *final(invariant), old(vlog).v(), final(vlog).v(), token, old(self).caller(), amount.d(), TransferType::Deposit, 0)
            && old(invariant).bal(old(self).caller(), token) + amount.d() <= U256::umax(),
        r is Ok ==> final(vlog).v() != old(vlog).v() && r->Ok_0 == amount
//@end
pub open spec fn wanted(a: Invariant, who: ActorId, tok: ActorId, amt: Option<TokenAmount>) -> int { match amt { Some(x) => x.d(), None => a.bal(who, tok) } }
//@fn src/invariant_service.rs InvariantService::withdraw_single_token -> r svc
    requires old(invariant).ledger_wf()
    ensures
        final(invariant).ledger_wf(),
        final(vlog).v() != old(vlog).v() ==> ({ let a = wanted(*old(invariant), old(self).caller(), token, amount); a <= old(invariant).bal(old(self).caller(), token)
            && one_transfer(*old(invariant), *final(invariant), old(vlog).v(), final(vlog).v(), token, old(self).caller(), a, TransferType::Withdrawal, a) }),
        r is Ok ==> r->Ok_0.d() == wanted(*old(invariant), old(self).caller(), token, amount) && (r->Ok_0.d() != 0 ==> final(vlog).v() != old(vlog).v()) && (r->Ok_0.d() == 0 ==> final(vlog).v() == old(vlog).v() && final(invariant).same_balances(old(invariant)) && final(invariant).same_but_balances(old(invariant))),
        amount is Some && amount->Some_0.d() > old(invariant).bal(old(self).caller(), token) ==> r is Err && final(vlog).v() == old(vlog).v()
//@end
/// one or two requests, whichever amounts are not zero
pub open spec fn sent_pair(a: Invariant, b: Invariant, l: Seq<Sleep>, k: Seq<Sleep>, x: ActorId, ax: int, y: ActorId, ay: int, who: ActorId, ty: TransferType, tx: int, tyy: int) -> bool {
    if ax != 0 && ay != 0 { two_transfers(a, b, l, k, x, ax, y, ay, who, ty, tx, tyy) } else if ax != 0 { one_transfer(a, b, l, k, x, who, ax, ty, tx) } else if ay != 0 { one_transfer(a, b, l, k, y, who, ay, ty, tyy) } else { false }
}
//@fn src/invariant_service.rs InvariantService::deposit_token_pair -> r svc
    requires old(invariant).ledger_wf()
    ensures
        final(invariant).ledger_wf(),
        final(vlog).v() != old(vlog).v() ==> token_x.0 != token_y.0 && sent_pair(*old(invariant), *final(invariant), old(vlog).v(), final(vlog).v(), token_x.0, token_x.1.d(), token_y.0, token_y.1.d(), old(self).caller(), TransferType::Deposit, 0, 0),
        r is Ok ==> r->Ok_0 == (token_x.1, token_y.1) && (token_x.1.d() != 0 || token_y.1.d() != 0 ==> final(vlog).v() != old(vlog).v()) && (token_x.1.d() == 0 && token_y.1.d() == 0 ==> *final(invariant) == *old(invariant))
//@end
//@fn src/invariant_service.rs InvariantService::withdraw_token_pair -> r svc
    requires old(invariant).ledger_wf()
    ensures
        final(invariant).ledger_wf(),
        final(vlog).v() != old(vlog).v() ==> token_x.0 != token_y.0 && ({ let o = *old(invariant); let c = old(self).caller(); let (ax, ay) = (wanted(o, c, token_x.0, token_x.1), wanted(o, c, token_y.0, token_y.1));
            ax <= o.bal(c, token_x.0) && ay <= o.bal(c, token_y.0) && sent_pair(o, *final(invariant), old(vlog).v(), final(vlog).v(), token_x.0, ax, token_y.0, ay, c, TransferType::Withdrawal, ax, ay) }),
        r is Ok ==> r->Ok_0.0.d() == wanted(*old(invariant), old(self).caller(), token_x.0, token_x.1) && r->Ok_0.1.d() == wanted(*old(invariant), old(self).caller(), token_y.0, token_y.1)
            && (r->Ok_0.0.d() != 0 || r->Ok_0.1.d() != 0 ==> final(vlog).v() != old(vlog).v()) && (r->Ok_0.0.d() == 0 && r->Ok_0.1.d() == 0 ==> final(invariant).same_balances(old(invariant)) && final(invariant).same_but_balances(old(invariant)))
//@end
//@fn src/invariant_service.rs InvariantService::deposit_vara -> r svc map_result
    requires old(invariant).ledger_wf()
    ensures final(invariant).ledger_wf(), final(invariant).same_but_balances(old(invariant)), r is Ok ==> r->Ok_0.d() == msg_value() && final(invariant).only_bal(old(invariant), msg_source(), ActorId::zero_id(), old(invariant).bal(msg_source(), ActorId::zero_id()) + msg_value())
//@end
//@fn src/invariant_service.rs InvariantService::withdraw_vara -> r svc
    requires old(invariant).ledger_wf()
    ensures r is Err
//@atleave
    assert(invariant.ledger_wf() && invariant.same_but_balances(old(invariant)) && reply_value() <= old(invariant).bal(msg_source(), ActorId::zero_id()) && invariant.only_bal(old(invariant), msg_source(), ActorId::zero_id(), old(invariant).bal(msg_source(), ActorId::zero_id()) - reply_value()));
//@end
