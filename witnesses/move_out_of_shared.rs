// expect: E0507
// a stream cannot be moved out of a shared number
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: &Number) -> Clog {
    match *x {
        Number::Other(_, c) => c,
        _ => panic!(),
    }
}
#[cfg(twin)]
fn f(x: Number) -> Clog {
    match x {
        Number::Other(_, c) => c,
        _ => panic!(),
    }
}
fn main() {}
