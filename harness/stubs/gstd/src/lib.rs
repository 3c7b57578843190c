//! Host-side stand-in for the parts of `gstd` the contract calls.  It keeps the state a Gear node would
//! provide (message source, value, block time, gas) in thread locals, records what the program
//! sends, and lets the harness decide every reply.  It contains no protocol logic.
extern crate alloc;
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use std::cell::RefCell;
use std::collections::BTreeMap;

macro_rules! id {
    ($n:ident) => {
        #[derive(Clone, Copy, Default, Hash, Ord, PartialEq, PartialOrd, Eq, TypeInfo, Encode, Decode)]
        pub struct $n(pub [u8; 32]);
        impl $n {
            pub const fn new(a: [u8; 32]) -> Self { Self(a) }
            pub const fn zero() -> Self { Self([0; 32]) }
            pub fn is_zero(&self) -> bool { self == &Self::zero() }
            pub const fn into_bytes(self) -> [u8; 32] { self.0 }
        }
        impl From<u64> for $n {
            fn from(v: u64) -> Self { let mut a = [0u8; 32]; a[..8].copy_from_slice(&v.to_le_bytes()); Self(a) }
        }
        impl From<[u8; 32]> for $n { fn from(v: [u8; 32]) -> Self { Self(v) } }
        impl From<$n> for [u8; 32] { fn from(v: $n) -> Self { v.0 } }
        impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } }
        impl core::fmt::Debug for $n {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                let mut n = 32; while n > 1 && self.0[n - 1] == 0 { n -= 1; }
                write!(f, "0x")?; for b in self.0[..n].iter().rev() { write!(f, "{:02x}", b)?; } Ok(())
            }
        }
        impl core::fmt::Display for $n {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "{:?}", self) }
        }
    };
}
id!(ActorId);
id!(MessageId);
id!(CodeId);

#[derive(Clone, Debug)]
pub struct Sent { pub id: MessageId, pub to: ActorId, pub payload: Vec<u8>, pub value: u128 }

/// what the addressed program answers
#[derive(Clone, Debug)]
pub enum Reply { Bytes(Vec<u8>), Error(Vec<u8>) }

#[derive(Default)]
pub struct Host {
    pub source: ActorId, pub program: ActorId, pub value: u128, pub timestamp: u64, pub height: u32,
    pub gas: u64, pub next_id: u64, pub sent: Vec<Sent>, pub replies_out: Vec<(Vec<u8>, u128)>,
    pub current_payload: Vec<u8>, pub hooks: BTreeMap<MessageId, Box<dyn FnOnce()>>,
    pub resolved: BTreeMap<MessageId, Reply>, pub events: Vec<String>,
}
thread_local! { pub static HOST: RefCell<Host> = RefCell::new(Host::default()); }
pub fn with<R>(f: impl FnOnce(&mut Host) -> R) -> R { HOST.with(|h| f(&mut h.borrow_mut())) }

/// The reply to `id` arrives: gstd decodes nothing, stores it for the waiting future, and runs the hook
/// with the reply as the current message.
pub fn deliver(id: MessageId, r: Reply) {
    let hook = with(|h| {
        h.current_payload = match &r { Reply::Bytes(b) | Reply::Error(b) => b.clone() };
        h.resolved.insert(id, r);
        h.hooks.remove(&id)
    });
    if let Some(k) = hook { k() }
}

/// payload of the unwinding that stands for `exec::leave`
pub struct Leave;

pub mod exec {
    use super::*;
    pub fn block_timestamp() -> u64 { with(|h| h.timestamp) }
    pub fn block_height() -> u32 { with(|h| h.height) }
    pub fn gas_available() -> u64 { with(|h| h.gas) }
    pub fn program_id() -> ActorId { with(|h| h.program) }
    pub fn leave() -> ! { std::panic::panic_any(Leave) }
}
pub mod errors {
    #[derive(Debug, Clone)]
    pub enum Error { Decode, ErrorReply(Vec<u8>), Timeout }
}
pub mod msg {
    use super::*;
    use core::future::Future;
    use core::marker::PhantomData;
    use core::pin::Pin;
    use core::task::{Context, Poll};
    pub fn source() -> ActorId { with(|h| h.source) }
    pub fn id() -> MessageId { MessageId::from(0) }
    pub fn value() -> u128 { with(|h| h.value) }
    pub fn reply<E: Encode>(p: E, value: u128) -> Result<MessageId, errors::Error> {
        with(|h| h.replies_out.push((p.encode(), value))); Ok(MessageId::zero())
    }
    pub fn send<E: Encode>(to: ActorId, p: E, value: u128) -> Result<MessageId, errors::Error> {
        Ok(with(|h| { h.next_id += 1; let id = MessageId::from(h.next_id); h.sent.push(Sent { id, to, payload: p.encode(), value }); id }))
    }
    pub fn load<D: Decode>() -> Result<D, errors::Error> {
        with(|h| D::decode(&mut &h.current_payload[..]).map_err(|_| errors::Error::Decode))
    }
    pub struct CodecMessageFuture<T> { pub waiting_reply_to: MessageId, pub _p: PhantomData<T> }
    impl<T> Unpin for CodecMessageFuture<T> {}
    impl<T> CodecMessageFuture<T> {
        pub fn handle_reply<F: FnOnce() + 'static>(self, f: F) -> Result<Self, errors::Error> {
            with(|h| h.hooks.insert(self.waiting_reply_to, Box::new(f))); Ok(self)
        }
        pub fn up_to(self, _d: Option<u32>) -> Result<Self, errors::Error> { Ok(self) }
    }
    impl<T: Decode> Future for CodecMessageFuture<T> {
        type Output = Result<T, errors::Error>;
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            match with(|h| h.resolved.get(&self.waiting_reply_to).cloned()) {
                None => Poll::Pending,
                Some(Reply::Bytes(b)) => Poll::Ready(T::decode(&mut &b[..]).map_err(|_| errors::Error::Decode)),
                Some(Reply::Error(b)) => Poll::Ready(Err(errors::Error::ErrorReply(b))),
            }
        }
    }
    impl<T: Decode> futures_core::FusedFuture for CodecMessageFuture<T> {
        fn is_terminated(&self) -> bool { false }
    }
    pub fn send_bytes_with_gas_for_reply_as<P: AsRef<[u8]>, T: Decode>(
        to: ActorId, payload: P, _gas: u64, value: u128, _reply: u64,
    ) -> Result<CodecMessageFuture<T>, errors::Error> {
        let id = with(|h| { h.next_id += 1; let id = MessageId::from(h.next_id);
            h.sent.push(Sent { id, to, payload: payload.as_ref().to_vec(), value }); id });
        Ok(CodecMessageFuture { waiting_reply_to: id, _p: PhantomData })
    }
    mod futures_core { pub use futures::future::FusedFuture; }
}
#[macro_export]
macro_rules! debug { ($($t:tt)*) => {{ let _ = alloc::format!($($t)*); }}; }
