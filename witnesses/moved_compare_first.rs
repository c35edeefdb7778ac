// expect: E0382
// a number is gone after Number::compare(x, y)
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: Number, y: Number) {
    let r = Number::compare(x, y);
    let again = x;
}
#[cfg(twin)]
fn f(x: Number, y: Number) {
    let r = Number::compare(x, y);
}
fn main() {}
