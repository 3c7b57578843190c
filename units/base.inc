#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, unused_assignments, non_camel_case_types, unreachable_code, irrefutable_let_patterns)]
use vstd::prelude::*;
use core::ops::{Add, Sub, Mul, Div, AddAssign, SubAssign, MulAssign, DivAssign};
verus! {
pub open spec fn ipow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) } }
// ---- texts and errors are opaque: no property here speaks about wording
pub struct VString { pub id: Ghost<int> }
pub struct VErr;
pub type TrackableResult<T> = Result<T, VErr>;
#[verifier::external_body] pub fn verr() -> (r: VErr) { VErr }
#[verifier::external_body] pub fn vstring() -> (r: VString) { unimplemented!() }
pub fn vfrom_result<T, E>(r: Result<T, E>) -> (o: TrackableResult<T>)
    ensures o.is_ok() == r.is_ok(), o.is_ok() ==> o->Ok_0 == r->Ok_0
{ match r { Ok(x) => Ok(x), Err(_) => Err(VErr) } }
pub fn vmap_err<T, E, F>(r: Result<T, E>, f: F) -> (o: Result<T, F>)
    ensures o.is_ok() == r.is_ok(), o.is_ok() ==> o->Ok_0 == r->Ok_0, o.is_err() ==> o->Err_0 == f
{ match r { Ok(x) => Ok(x), Err(_) => Err(f) } }
// ---- a panic never returns: everything after it is vacuous (the program's message is reverted)
#[verifier::external_body] pub fn vpanic<T>() -> (r: T) ensures false { panic!() }
pub trait VUnwrap: Sized { type O; spec fn vgood(self, o: Self::O) -> bool; fn vunwrap(self) -> (r: Self::O) ensures self.vgood(r); }
impl<T> VUnwrap for Option<T> { type O = T; open spec fn vgood(self, o: T) -> bool { self == Some(o) } fn vunwrap(self) -> (r: T) { match self { Some(x) => x, None => vpanic() } } }
impl<T, E> VUnwrap for Result<T, E> { type O = T; open spec fn vgood(self, o: T) -> bool { self.is_ok() && self->Ok_0 == o } fn vunwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vpanic() } } }
