// expect: E0596
// the stream of a shared number cannot be read
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: &Number) {
    if let Number::Other(_, c) = x {
        c.egest();
    }
}
#[cfg(twin)]
fn f(x: &mut Number) {
    if let Number::Other(_, c) = x {
        c.egest();
    }
}
fn main() {}
