//! /repo's invariant_service.rs and invariant_storage.rs, compiled as they are.
#![no_std]
#![allow(dead_code, unused_imports)]
extern crate alloc;
#[path = "/repo/src/invariant_service.rs"]
pub mod invariant_service;
#[path = "/repo/src/invariant_storage.rs"]
pub mod invariant_storage;
pub use contracts::*;
