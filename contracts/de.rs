use vstd::prelude::*;
use vstd::utf8::*;
use std::sync::Arc;

verus! {

//@include de_body.rs
} // verus!

fn main() {}
