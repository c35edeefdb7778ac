// expect: E0382
// a stream is not copied by assignment
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(c: Clog) {
    let mut a = c;
    let mut b = c;
}
#[cfg(twin)]
fn f(c: Clog) {
    let mut a = c;
    let mut b = a;
}
fn main() {}
