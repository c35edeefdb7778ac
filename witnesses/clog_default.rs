// expect: E0277 E0271
// Clog does not implement Default
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};
fn need<T: Default>() {}
#[cfg(not(twin))]
fn f() {
    need::<Clog>();
}
#[cfg(twin)]
fn f() {
    need::<u8>();
}
fn main() {}
