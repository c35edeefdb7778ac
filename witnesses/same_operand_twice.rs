// expect: E0382
// one number cannot be both operands
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: Number, y: Number) {
    let r = Number::combine(x, x, 1, 2, 3, 4, 5, 6, 7, 8);
}
#[cfg(twin)]
fn f(x: Number, y: Number) {
    let r = Number::combine(x, y, 1, 2, 3, 4, 5, 6, 7, 8);
}
fn main() {}
