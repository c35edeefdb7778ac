// expect: E0382
// a number is gone after Number::consume(x)
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: Number, y: Number) {
    let r = Number::consume(x);
    let again = x;
}
#[cfg(twin)]
fn f(x: Number, y: Number) {
    let r = Number::consume(x);
}
fn main() {}
