// expect: E0599
// Clog has no clone method
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: Clog) {
    let y = x.clone();
}
#[cfg(twin)]
fn f(x: Clog) {
    let y = x;
}
fn main() {}
