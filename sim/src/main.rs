mod ctx;
mod gen;
mod props;
mod runner;
mod seam;
mod simio;
mod source;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

/// Memory is finite: beyond this, allocations fail (and the run counts as aborted).
struct Capped;
static USED: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 3 << 30;
thread_local! {
    /// bytes ever allocated by this thread: a deterministic measure of work
    static WORK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// bytes allocated by this thread so far
pub fn allocated() -> u64 {
    WORK.try_with(|w| w.get()).unwrap_or(0)
}
unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = WORK.try_with(|w| w.set(w.get() + l.size() as u64));
        if USED.fetch_add(l.size(), Ordering::Relaxed) + l.size() > CAP {
            USED.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Capped = Capped;

fn main() {
    ctx::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => runner::check(&a[1]),
        Some("worker") => runner::worker(&a[1..]),
        Some("replay") => runner::replay(&a[1]),
        Some("one") => runner::one(&a[1], a[2].parse().unwrap()),
        Some("digests") => runner::digests(&a[1], a[2].parse().unwrap()),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        },
        _ => {
            eprintln!("usage: rnxsim check ID | replay FILE | one ID RUN | digests ID N | list");
            2
        },
    };
    std::process::exit(code);
}
