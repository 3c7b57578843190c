//! Stand-in for `sails_rs`: the same names re-exported from the same underlying crates; the
//! attribute macros are identities (see sails-macros).
#![no_std]
extern crate alloc;
extern crate self as sails_rs;
pub use prelude::*;
pub mod prelude {
    pub use alloc::{borrow, borrow::ToOwned, boxed, boxed::Box, fmt, format, rc, str, string,
        string::{String, ToString}, vec, vec::Vec};
    pub use core::{any, array, ascii, assert_eq, assert_ne, cell, char, clone, cmp, convert, debug_assert,
        debug_assert_eq, debug_assert_ne, default, future, hash, hint, iter, marker, matches, mem, num,
        ops, option, panic, pin, prelude::rust_2021::*, primitive, ptr, result, slice, task, time,
        todo, unimplemented, unreachable, write, writeln};
    pub mod collections {
        pub use ::hashbrown::{hash_map, hash_set, HashMap, HashSet};
        pub use alloc::collections::*;
    }
    pub use parity_scale_codec::{self as scale_codec, Decode, Encode, EncodeLike};
    pub use scale_info::{self as scale_info, TypeInfo};
    pub use core::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8};
    pub use gstd::{ActorId, CodeId, MessageId};
    pub use primitive_types::*;
    pub type ValueUnit = u128;
    pub type GasUnit = u64;
}
pub mod gstd {
    pub use ::gstd::{debug, msg};
    pub use sails_macros::*;
    use crate::{ActorId, MessageId};
    pub trait ExecContext { fn actor_id(&self) -> ActorId; fn message_id(&self) -> MessageId; }
    #[derive(Default, Clone)]
    pub struct GStdExecContext;
    impl GStdExecContext { pub fn new() -> Self { Self } }
    impl ExecContext for GStdExecContext {
        fn actor_id(&self) -> ActorId { msg::source() }
        fn message_id(&self) -> MessageId { msg::id() }
    }
    pub fn record_event(e: alloc::string::String) { ::gstd::with(|h| h.events.push(e)) }
}
