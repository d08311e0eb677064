use vstd::prelude::*;
use vstd::utf8::*;
use std::io::Write;

verus! {

//@include ser_body.rs
} // verus!
fn main() {}
