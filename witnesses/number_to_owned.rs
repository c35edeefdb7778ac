// expect: E0277 E0271
// Number does not implement std::borrow::ToOwned<Owned = Number>
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};
fn need<T: std::borrow::ToOwned<Owned = Number>>() {}
#[cfg(not(twin))]
fn f() {
    need::<Number>();
}
#[cfg(twin)]
fn f() {}
fn main() {}
