// expect: E0451
// a stream cannot be built from another one
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(c: Clog) -> Clog {
    Clog { ..c }
}
#[cfg(twin)]
fn f(c: Clog) -> Clog {
    c
}
fn main() {}
