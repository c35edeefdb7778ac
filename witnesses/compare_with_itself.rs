// expect: E0382
// one number cannot be compared with itself
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: Number, y: Number) {
    let r = Number::compare(x, x);
}
#[cfg(twin)]
fn f(x: Number, y: Number) {
    let r = Number::compare(x, y);
}
fn main() {}
