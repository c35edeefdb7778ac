// expect: E0382
// a number is gone after Number::homographic(x, 1, 2, 3, 4)
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: Number, y: Number) {
    let r = Number::homographic(x, 1, 2, 3, 4);
    let again = x;
}
#[cfg(twin)]
fn f(x: Number, y: Number) {
    let r = Number::homographic(x, 1, 2, 3, 4);
}
fn main() {}
