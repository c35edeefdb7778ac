// expect: E0603 E0432 E0433
// strategies cannot be named, hence not implemented
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
use clarith::strategy::Strategy;
#[cfg(twin)]
use clarith::protocol;
fn main() {}
