// expect: E0603 E0432 E0433
// inner constructors cannot be called
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f() {
    clarith::strategy::ratio::new(true, 1, 2);
}
#[cfg(twin)]
fn f() {
    Number::ratio_u(true, 1, 2);
}
fn main() {}
