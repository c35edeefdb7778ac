// expect: PRIVATE E0423 E0533 E0618 E0061 E0063 E0451 E0603
// a stream cannot be conjured
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f() -> Clog {
    Clog {}
}
#[cfg(twin)]
fn f(c: Clog) -> Clog {
    c
}
fn main() {}
