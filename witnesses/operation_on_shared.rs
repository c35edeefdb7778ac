// expect: E0308
// operations do not take shared numbers
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: &Number) {
    Number::homographic(x, 1, 2, 3, 4);
}
#[cfg(twin)]
fn f(x: Number) {
    Number::homographic(x, 1, 2, 3, 4);
}
fn main() {}
