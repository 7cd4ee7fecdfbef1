#![feature(allocator_api)]
use vstd::prelude::*;
use std::task::Poll;
use std::sync::Arc;
use core::fmt::Debug;
verus! {
// which of the two properties' obligations are generated
pub open spec fn ONCE() -> bool { false }
pub open spec fn WAKE() -> bool { true }
}
//@include futures_body.vrs
