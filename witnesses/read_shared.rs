// expect: E0596
// a stream cannot be read through a shared reference
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(c: &Clog) {
    c.egest();
}
#[cfg(twin)]
fn f(c: &mut Clog) {
    c.egest();
}
fn main() {}
