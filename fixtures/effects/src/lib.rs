//! Positive examples for the effect rule: every function below must be reported, except those
//! whose name starts with `quiet`.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static TABLE: [usize; 3] = [1, 2, 3];
static HITS: AtomicUsize = AtomicUsize::new(0);
static LAST: Mutex<usize> = Mutex::new(0);
static mut RAW: usize = 0;

thread_local! {
    static LOCAL: Cell<usize> = Cell::new(0);
}

pub fn prints(x: usize) -> usize {
    println!("{}", x);
    x
}

pub fn prints_error(x: usize) -> usize {
    helper(x)
}

fn helper(x: usize) -> usize {
    [x].iter().map(|y| { eprintln!("seen"); y + 1 }).sum()
}

pub fn debugs(x: usize) -> usize {
    dbg!(x)
}

pub fn reads_env() -> bool {
    std::env::var("HOME").is_ok()
}

pub fn reads_file() -> bool {
    std::fs::metadata("/").is_ok()
}

pub fn reads_clock() -> std::time::Instant {
    std::time::Instant::now()
}

pub fn spawns() {
    let _ = std::thread::spawn(|| {}).join();
}

pub fn counts() -> usize {
    HITS.fetch_add(1, Ordering::Relaxed)
}

pub fn locks(x: usize) -> usize {
    std::mem::replace(&mut *LAST.lock().unwrap(), x)
}

pub fn raw(x: usize) -> usize {
    unsafe {
        let old = RAW;
        RAW = x;
        old
    }
}

pub fn local(x: usize) -> usize {
    LOCAL.with(|c| c.replace(x))
}

pub fn hashes(x: usize) -> Option<usize> {
    let mut m = HashMap::new();
    m.insert(x, 1usize);
    m.insert(x + 1, 2);
    m.into_iter().next().map(|p| p.0)
}

pub fn address(x: &usize) -> usize {
    x as *const usize as usize
}

pub struct Loud(pub usize);

impl Drop for Loud {
    fn drop(&mut self) {
        println!("dropped");
    }
}

pub fn drops(x: usize) -> usize {
    let l = Loud(x);
    l.0
}

pub fn quiet_table(x: usize) -> usize {
    TABLE[x % 3]
}

pub fn quiet_panic(x: usize) -> usize {
    if x == 0 {
        panic!("zero {}", x);
    }
    x.checked_mul(3).expect("fits")
}

pub fn quiet_alloc(x: usize) -> Box<usize> {
    let c = Cell::new(x);
    c.set(x + 1);
    Box::new(c.get())
}
