//! C25: a request of the allocator takes effect at one moment, whatever other threads do.
//!
//! `build.rs` extracts the text from /repo, with `shared::AtomicUsize` for its atomic.
use crate::shared::{ARENA, RECORD};
use core::alloc::{GlobalAlloc, Layout};

mod no_std {
    include!(concat!(env!("OUT_DIR"), "/no_std.rs"));
}

fn allocator() -> &'static impl GlobalAlloc {
    include!(concat!(env!("OUT_DIR"), "/allocator.rs"))
}

// A request, during which other threads change the state in any way at any access, ends as it does
// if it runs alone from the state at one moment of its run: the state before the one change it
// makes, or the state it saw last if it makes none. So requests of any number of threads have the
// results of some sequence of requests, and C22 is about those.
lemma!(#[kani::unwind(6)] bounded_one_moment, {
    let a = allocator();
    let (first, size, shift): (usize, usize, u32) = kani::any();
    kani::assume(first <= ARENA && shift < 20 && size <= 2 * ARENA);
    let l = unsafe { Layout::from_size_align_unchecked(size, 1 << shift) };
    let base = unsafe { a.alloc(Layout::from_size_align_unchecked(first, 1)) };
    assert!(!base.is_null(), "a request for what is left is met");

    unsafe {
        RECORD.on = true;
        RECORD.interventions = 2;
        RECORD.spurious = 1;
    }
    let p = unsafe { a.alloc(l) };
    let (changes, before, after, seen, cell) =
        unsafe { (RECORD.changes, RECORD.before, RECORD.after, RECORD.seen, &*RECORD.cell) };
    unsafe { RECORD.on = false };
    assert!(changes <= 1, "a request changes the state at most once");

    let moment = if changes == 1 { before } else { seen };
    cell.set(moment);
    let q = unsafe { a.alloc(l) };
    assert!(p == q, "a request among others gets what it gets alone at one moment");
    assert!(cell.get() == if changes == 1 { after } else { moment }, "a request among others leaves what it leaves alone");
    kani::cover!(changes == 1 && before != ARENA - first && !p.is_null());
    kani::cover!(changes == 0 && p.is_null());
});
