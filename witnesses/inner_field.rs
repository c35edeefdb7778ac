// expect: E0616 E0609 E0610
// the inner strategy is out of reach
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(c: Clog) {
    let s = c.strategy;
}
#[cfg(twin)]
fn f(c: Clog) {
    let s = c;
}
fn main() {}
