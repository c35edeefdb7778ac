// expect: E0382
// a number is gone after x.unwrap_special()
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(x: Number, y: Number) {
    let r = x.unwrap_special();
    let again = x;
}
#[cfg(twin)]
fn f(x: Number, y: Number) {
    let r = x.unwrap_special();
}
fn main() {}
