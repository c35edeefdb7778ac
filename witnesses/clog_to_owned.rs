// expect: E0277 E0271
// Clog does not implement std::borrow::ToOwned<Owned = Clog>
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};
fn need<T: std::borrow::ToOwned<Owned = Clog>>() {}
#[cfg(not(twin))]
fn f() {
    need::<Clog>();
}
#[cfg(twin)]
fn f() {}
fn main() {}
