// ---- what the program runtime provides (assumed contracts)
pub struct Error; pub type GErr = Error;
pub uninterp spec fn msg_source() -> ActorId;
pub uninterp spec fn msg_value() -> u128;
pub uninterp spec fn this_program() -> ActorId;
pub uninterp spec fn now() -> u64;
pub uninterp spec fn height() -> u32;
/// what the payload of the current message decodes to, as a value of type T
pub uninterp spec fn loaded<T>() -> Option<T>;
#[verifier::external_body] pub fn source() -> (r: ActorId) ensures r == msg_source() { unimplemented!() }
#[verifier::external_body] pub fn value() -> (r: u128) ensures r == msg_value() { unimplemented!() }
#[verifier::external_body] pub fn program_id() -> (r: ActorId) ensures r == this_program() { unimplemented!() }
#[verifier::external_body] pub fn block_timestamp() -> (r: u64) ensures r == now() { unimplemented!() }
#[verifier::external_body] pub fn block_height() -> (r: u32) ensures r == height() { unimplemented!() }
#[verifier::external_body] pub fn gas_available() -> u64 { unimplemented!() }
#[verifier::external_body] pub fn reply<P>(p: P, v: u128) -> (r: Result<MessageId, GErr>) ensures r is Ok ==> reply_value() == v { unimplemented!() }
/// coins sent along with the reply (one reply per message)
pub uninterp spec fn reply_value() -> u128;
#[verifier::external_body] pub fn load<T>() -> (r: Result<T, GErr>) ensures match r { Ok(x) => loaded::<T>() == Some(x), Err(_) => loaded::<T>() is None } { unimplemented!() }
/// the message ends here and its effects so far are kept
#[verifier::external_body] pub fn vleave<T>() -> (r: T) ensures false { unimplemented!() }
pub uninterp spec fn text(s: VString) -> Seq<char>;
#[verifier::external_body] pub fn vstr_eq(s: &VString, l: &str) -> (r: bool) ensures r == (text(*s) == l@) { unimplemented!() }
// ---- encodings: opaque byte strings
#[verifier::external_body] pub struct VBytes { _b: u8 }
impl VBytes { pub uninterp spec fn b(&self) -> Seq<u8>; }
pub uninterp spec fn enc_str(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn enc_actor(a: ActorId) -> Seq<u8>;
pub uninterp spec fn enc_amount(a: TokenAmount) -> Seq<u8>;
#[verifier::external_body] pub fn vstr_encode(l: &str) -> (r: VBytes) ensures r.b() == enc_str(l@) { unimplemented!() }
#[verifier::external_body] pub fn vcat(a: VBytes, b: VBytes) -> (r: VBytes) ensures r.b() == a.b() + b.b() { unimplemented!() }
impl ActorId { #[verifier::external_body] pub fn encode(&self) -> (r: VBytes) ensures r.b() == enc_actor(*self) { unimplemented!() } 
    pub uninterp spec fn zero_id() -> ActorId;
    #[verifier::external_body] pub const fn zero() -> (r: ActorId) ensures r == ActorId::zero_id() { ActorId { _b: [0; 32] } } }
impl TokenAmount { #[verifier::external_body] pub fn encode(&self) -> (r: VBytes) ensures r.b() == enc_amount(*self) { unimplemented!() } }
pub trait VPayload { spec fn pb(&self) -> Seq<u8>; }
impl VPayload for VBytes { open spec fn pb(&self) -> Seq<u8> { self.b() } }
// ---- messages that wait for a reply
pub type TokenTransferResponse = (VString, VString, bool);
pub struct CodecMessageFuture<T> { pub waiting_reply_to: MessageId, pub dest: Ghost<ActorId>, pub payload: Ghost<Seq<u8>>, pub coins: Ghost<int>, pub hook: Ghost<Option<(ActorId, MessageId)>>, pub _p: core::marker::PhantomData<T> }
#[verifier::external_body] pub fn send_bytes_with_gas_for_reply_as<A: VPayload, B>(program: ActorId, payload: A, gas: u64, value: u128, hook_gas: u64) -> (r: Result<CodecMessageFuture<B>, GErr>)
    ensures r is Ok ==> r->Ok_0.dest@ == program && r->Ok_0.payload@ == payload.pb() && r->Ok_0.coins@ == value { unimplemented!() }
impl<T> CodecMessageFuture<T> {
    #[verifier::external_body] pub fn vhandle_reply(self, t: ActorId, m: MessageId) -> (r: Result<CodecMessageFuture<T>, GErr>)
        ensures r is Ok ==> r->Ok_0 == (CodecMessageFuture { hook: Ghost(Some((t, m))), ..self }) { unimplemented!() }
}
/// other messages may run while the program sleeps: each keeps the ledger well formed (shown for every entry point), nothing else is known
/// what was committed when the program went to sleep, and what it found when it was woken
pub struct Sleep { pub slept: Invariant, pub woke: Invariant, pub ids: Seq<MessageId> }
pub struct VLog { pub s: Ghost<Seq<Sleep>> }
impl VLog { pub open spec fn v(&self) -> Seq<Sleep> { self.s@ } }
#[verifier::external_body] pub fn vawait<T>(m: CodecMessageFuture<T>, invariant: &mut Invariant, vlog: &mut VLog) -> (r: Result<T, GErr>)
    requires old(invariant).ledger_wf()
    ensures final(invariant).ledger_wf(), final(vlog).v() == old(vlog).v().push(Sleep { slept: *old(invariant), woke: *final(invariant), ids: seq![m.waiting_reply_to] }) { unimplemented!() }
#[verifier::external_body] pub fn vjoin<T>(m: CodecMessageFuture<T>, n: CodecMessageFuture<T>, invariant: &mut Invariant, vlog: &mut VLog) -> (r: (Result<T, GErr>, Result<T, GErr>))
    requires old(invariant).ledger_wf()
    ensures final(invariant).ledger_wf(), final(vlog).v() == old(vlog).v().push(Sleep { slept: *old(invariant), woke: *final(invariant), ids: seq![m.waiting_reply_to, n.waiting_reply_to] }) { unimplemented!() }
// ---- conversions by .into()
pub trait SInto<T>: Sized { spec fn sok(self, r: T) -> bool; fn sinto(self) -> (r: T) ensures self.sok(r); }
impl SInto<MessageId> for MessageId { open spec fn sok(self, r: MessageId) -> bool { r == self } fn sinto(self) -> (r: MessageId) { self } }
impl SInto<ActorId> for ActorId { open spec fn sok(self, r: ActorId) -> bool { r == self } fn sinto(self) -> (r: ActorId) { self } }
impl SInto<TokenAmount> for TokenAmount { open spec fn sok(self, r: TokenAmount) -> bool { r == self } fn sinto(self) -> (r: TokenAmount) { self } }
impl SInto<Option<TokenAmount>> for TokenAmount { open spec fn sok(self, r: Option<TokenAmount>) -> bool { r == Some(self) } fn sinto(self) -> (r: Option<TokenAmount>) { Some(self) } }
impl SInto<U256> for u128 { open spec fn sok(self, r: U256) -> bool { r.uv() == self } fn sinto(self) -> (r: U256) { self.vinto() } }
impl SInto<U256> for i32 { open spec fn sok(self, r: U256) -> bool { r.uv() == self } fn sinto(self) -> (r: U256) { if self < 0 { vpanic::<()>() } (self as u128).vinto() } }
impl SInto<u128> for u128 { open spec fn sok(self, r: u128) -> bool { r == self } fn sinto(self) -> (r: u128) { self } }
pub assume_specification<'a, T, E> [ Result::<&T, E>::cloned ] (o: Result<&'a T, E>) -> (r: Result<T, E>) where T: Clone ensures match o { Ok(x) => r == Ok::<T, E>(*x), Err(e) => r == Err::<T, E>(e) };
pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ] (o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => d });
impl Clone for InvariantError { #[verifier::external_body] fn clone(&self) -> (r: InvariantError) ensures r == *self { unimplemented!() } }
// ---- the service object: only its caller matters
#[verifier::external_body] pub struct VExec { _b: u8 }
impl VExec { pub uninterp spec fn who(&self) -> ActorId; #[verifier::external_body] pub fn actor_id(&self) -> (r: ActorId) ensures r == self.who() { unimplemented!() } }
pub struct InvariantService { pub exec_context: VExec }
impl InvariantService {
    pub open spec fn caller(&self) -> ActorId { self.exec_context.who() }
    #[verifier::external_body] pub fn notify_on(&mut self, e: InvariantEvent) -> (r: Result<(), GErr>) ensures *final(self) == *old(self) { unimplemented!() }
}
pub struct VRangeIncl<T> { pub lo: T, pub hi: T }
//@enum io/src/lib.rs InvariantEvent
