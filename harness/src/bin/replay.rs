//! Runs one harness natively on recorded inputs: `replay HARNESS INPUTS`, one number a line.
//! Exit 0: held.  77: an assumption does not hold.  78: more inputs wanted.  Anything else: broken.
#[path = "../lib.rs"]
#[macro_use]
mod lib;

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};

struct Limited;
static USED: AtomicUsize = AtomicUsize::new(0);
const LIMIT: usize = 256 << 20;
fn grow(n: usize) {
    if USED.fetch_add(n, Ordering::Relaxed) + n > LIMIT {
        std::process::abort();
    }
}
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n);
        USED.fetch_sub(l.size(), Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Limited = Limited;

thread_local! {
    static INPUTS: RefCell<std::vec::IntoIter<u64>> = RefCell::new(vec![].into_iter());
}
fn next() -> u64 {
    INPUTS.with(|i| i.borrow_mut().next()).unwrap_or_else(|| std::process::exit(78))
}
#[no_mangle]
extern "C" fn sx_u64(bits: u32) -> u64 {
    let v = next();
    if bits >= 64 {
        v
    } else {
        v & ((1 << bits) - 1)
    }
}
#[no_mangle]
extern "C" fn sx_choose(n: u32) -> u32 {
    let v = next() as u32;
    if v >= n {
        std::process::exit(77)
    }
    v
}
#[no_mangle]
extern "C" fn sx_assume(c: bool) {
    if !c {
        std::process::exit(77)
    }
}
#[no_mangle]
extern "C" fn sx_assert(c: bool, id: u32) {
    if !c {
        println!("VIOLATED {id}");
        std::process::exit(1)
    }
}
#[no_mangle]
extern "C" fn sx_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn sx_observe(v: u64) {
    println!("{v}");
}
#[no_mangle]
extern "C" fn sx_reach(_: u32) {}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("inputs");
    let v: Vec<u64> = text.lines().filter_map(|l| l.trim().parse().ok()).collect();
    INPUTS.with(|i| *i.borrow_mut() = v.into_iter());
    let f = lib::table().into_iter().find(|t| t.0 == a[1]).expect("harness").1;
    f();
}
