// expect: E0277 E0271
// Clog does not implement Copy
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};
fn need<T: Copy>() {}
#[cfg(not(twin))]
fn f() {
    need::<Clog>();
}
#[cfg(twin)]
fn f() {
    need::<u8>();
}
fn main() {}
