// expect: PRIVATE E0451 E0560 E0423 E0603
// a stream cannot be built from its parts
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(c: Clog) -> Clog {
    Clog { strategy: loop {} }
}
#[cfg(twin)]
fn f(c: Clog) -> Clog {
    c
}
fn main() {}
