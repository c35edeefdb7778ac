// expect: E0382
// a stream is gone after being put into a number
#![allow(unused)]
use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};

#[cfg(not(twin))]
fn f(mut c: Clog) {
    let n = Number::Other(None, c);
    let s = c.egest();
}
#[cfg(twin)]
fn f(mut c: Clog) {
    let s = c.egest();
    let n = Number::Other(None, c);
}
fn main() {}
