// expect: E0599
// Number has no clone method
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: Number) {
    let y = x.clone();
}
#[cfg(twin)]
fn f(x: Number) {
    let y = x;
}
fn main() {}
