//! C22: the memory functions and the allocator of the C library without std.
//!
//! `build.rs` extracts their text from /repo.
use core::alloc::{GlobalAlloc, Layout};

mod no_std {
    include!(concat!(env!("OUT_DIR"), "/no_std.rs"));
}

fn allocator() -> &'static impl GlobalAlloc {
    include!(concat!(env!("OUT_DIR"), "/allocator.rs"))
}

/// The alignment of the static variable that holds the arena.
const ARENA_ALIGN: usize = include!(concat!(env!("OUT_DIR"), "/align.rs"));
const ARENA: usize = 128 * 1024;
const MAX_ALIGN: usize = 4096;

fn any_layout() -> Layout {
    let (size, shift): (usize, u32) = (kani::any(), kani::any());
    kani::assume(shift < 64);
    match Layout::from_size_align(size, 1 << shift) {
        Ok(layout) => layout,
        Err(_) => {
            kani::assume(false);
            Layout::new::<u8>()
        }
    }
}

pub mod allocator {
    use super::*;

    /// What is left after a request, if it is met.
    fn left(before: usize, layout: Layout) -> Option<usize> {
        (layout.align() <= MAX_ALIGN && layout.size() <= before).then(|| (before - layout.size()) & !(layout.align() - 1))
    }

    fn disjoint(p: usize, n: usize, q: usize, m: usize) -> bool {
        n == 0 || m == 0 || p + n <= q || q + m <= p
    }

    // Every state of the allocator is the one after some request with alignment 1 (the state is the
    // amount that is left, and that request can leave any amount), so that two more requests are
    // the step of an induction over all histories.
    lemma!(#[kani::unwind(3)] step, {
        let a = allocator();
        let first: usize = kani::any();
        kani::assume(first <= ARENA);
        let p = unsafe { a.alloc(Layout::from_size_align_unchecked(first, 1)) };
        assert!(!p.is_null(), "a request for what is left is met");
        let (l, m) = (any_layout(), any_layout());
        let q = unsafe { a.alloc(l) };
        let rest = left(ARENA - first, l);
        assert!(q.is_null() == rest.is_none(), "null exactly if there is not enough left, or the alignment is not supported");
        assert!(q.is_null() || q as usize % l.align() == 0, "the memory is aligned");
        assert!(q.is_null() || disjoint(p as usize, first, q as usize, l.size()), "the memory is disjoint from earlier memory");
        let r = unsafe { a.alloc(m) };
        let end = left(rest.unwrap_or(ARENA - first), m);
        assert!(r.is_null() == end.is_none(), "what a request takes is what it gets and the padding for its alignment, and nothing if it fails");
        assert!(r.is_null() || r as usize % m.align() == 0, "the memory is aligned");
        assert!(r.is_null() || disjoint(p as usize, first, r as usize, m.size()), "the memory is disjoint from earlier memory");
        assert!(r.is_null() || q.is_null() || disjoint(q as usize, l.size(), r as usize, m.size()), "the memory is disjoint from earlier memory");
        kani::cover!(!q.is_null() && !r.is_null());
        kani::cover!(q.is_null() && !r.is_null());
    });

    // The verifier checks that the accesses are inside the arena.
    lemma!(#[kani::unwind(3)] inside, {
        let a = allocator();
        let first: usize = kani::any();
        kani::assume(first <= ARENA);
        let p = unsafe { a.alloc(Layout::from_size_align_unchecked(first, 1)) };
        let l = any_layout();
        let q = unsafe { a.alloc(l) };
        let i: usize = kani::any();
        if i < first {
            let _ = unsafe { core::ptr::read_volatile(p.add(i)) };
        }
        if !q.is_null() && i < l.size() {
            let _ = unsafe { core::ptr::read_volatile(q.add(i)) };
        }
        // Nothing is ever given back.
        if !q.is_null() {
            unsafe { a.dealloc(q, l) };
            let m = any_layout();
            let r = unsafe { a.alloc(m) };
            assert!(r.is_null() || disjoint(p as usize, first, r as usize, m.size()), "the memory is disjoint from earlier memory");
        }
    });

    // Addresses are multiples of an alignment if offsets in the arena and its own address are (the
    // verifier places every object at a multiple of all alignments).
    lemma!(arena, {
        assert!(ARENA_ALIGN >= MAX_ALIGN, "the arena is aligned to the largest alignment that is supported");
    });
}

pub mod memory {
    use super::*;
    use no_std::*;

    const N: usize = 40;

    fn range() -> (usize, usize) {
        let (at, n): (usize, usize) = (kani::any(), kani::any());
        kani::assume(at < 4 && n <= N - at);
        (at, n)
    }

    lemma!(#[kani::unwind(42)] bounded_memcpy, {
        let (mut to, from): ([u8; N], [u8; N]) = (kani::any(), kani::any());
        let (at, n) = range();
        let start: usize = kani::any();
        kani::assume(start < 4 && start <= N - n);
        let old = to;
        let r = unsafe { memcpy(to.as_mut_ptr().add(at), from.as_ptr().add(start), n) };
        assert!(r as usize == to.as_ptr() as usize + at, "memcpy returns its destination");
        let i: usize = kani::any();
        kani::assume(i < N);
        let want = if at <= i && i < at + n { from[start + i - at] } else { old[i] };
        assert!(to[i] == want, "memcpy copies the range, and nothing else");
    });

    lemma!(#[kani::unwind(42)] bounded_memset, {
        let mut to: [u8; N] = kani::any();
        let (at, n) = range();
        let old = to;
        let c: i32 = kani::any();
        let r = unsafe { memset(to.as_mut_ptr().add(at), c, n) };
        assert!(r as usize == to.as_ptr() as usize + at, "memset returns its destination");
        let i: usize = kani::any();
        kani::assume(i < N);
        let want = if at <= i && i < at + n { c as u8 } else { old[i] };
        assert!(to[i] == want, "memset fills the range, and nothing else");
    });

    lemma!(#[kani::unwind(42)] bounded_bzero, {
        let mut to: [u8; N] = kani::any();
        let (at, n) = range();
        let old = to;
        unsafe { __bzero(to.as_mut_ptr().add(at), n) };
        let i: usize = kani::any();
        kani::assume(i < N);
        let want = if at <= i && i < at + n { 0 } else { old[i] };
        assert!(to[i] == want, "__bzero clears the range, and nothing else");
    });

    lemma!(#[kani::unwind(42)] bounded_memcmp, {
        let (x, y): ([u8; N], [u8; N]) = (kani::any(), kani::any());
        let (at, n) = range();
        let start: usize = kani::any();
        kani::assume(start < 4 && start <= N - n);
        let r = unsafe { memcmp(x.as_ptr().add(at), y.as_ptr().add(start), n) };
        // The first difference, if there is one.
        let mut k = 0;
        while k < n && x[at + k] == y[start + k] {
            k += 1;
        }
        if k == n {
            assert!(r == 0, "memcmp of equal ranges");
        } else {
            assert!(r != 0 && (r > 0) == (x[at + k] > y[start + k]), "memcmp of ranges that differ");
        }
    });
}
