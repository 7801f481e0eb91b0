//! An atomic integer that other threads change: before every access, the value may become any other
//! one. What a request did to it is recorded.
//!
//! Assumption: the atomic is the only state that requests share, and its operations are atomic (whatever their ordering).
use core::cell::UnsafeCell;
pub use core::sync::atomic::Ordering;

pub const ARENA: usize = 128 * 1024;

pub struct Record {
    /// Whether other threads run.
    pub on: bool,
    /// How often other threads, and a weak exchange that fails for no reason, may still intervene.
    pub interventions: u8,
    pub spurious: u8,
    /// Changes by the request, and the values around the last one.
    pub changes: u8,
    pub before: usize,
    pub after: usize,
    /// The value at the last access.
    pub seen: usize,
    pub cell: *const AtomicUsize,
}

pub static mut RECORD: Record = Record {
    on: false,
    interventions: 0,
    spurious: 0,
    changes: 0,
    before: 0,
    after: 0,
    seen: 0,
    cell: core::ptr::null(),
};

pub struct AtomicUsize(UnsafeCell<usize>);

unsafe impl Sync for AtomicUsize {}

impl AtomicUsize {
    pub const fn new(v: usize) -> Self {
        AtomicUsize(UnsafeCell::new(v))
    }

    /// The value, without an intervention.
    pub fn get(&self) -> usize {
        unsafe { *self.0.get() }
    }

    pub fn set(&self, v: usize) {
        unsafe { *self.0.get() = v }
    }

    fn access(&self) -> usize {
        let r = unsafe { &mut *core::ptr::addr_of_mut!(RECORD) };
        assert!(r.cell.is_null() || r.cell == self as *const _, "LIMIT: requests share more than one atomic");
        r.cell = self;
        if r.on && r.interventions > 0 && kani::any() {
            r.interventions -= 1;
            let v: usize = kani::any();
            kani::assume(v <= ARENA);
            self.set(v);
        }
        r.seen = self.get();
        r.seen
    }

    fn put(&self, new: usize) {
        let r = unsafe { &mut *core::ptr::addr_of_mut!(RECORD) };
        if r.on && new != self.get() {
            r.changes += 1;
            r.before = self.get();
            r.after = new;
        }
        self.set(new);
    }

    pub fn load(&self, _: Ordering) -> usize {
        self.access()
    }

    pub fn store(&self, v: usize, _: Ordering) {
        self.access();
        self.put(v);
    }

    fn apply(&self, f: impl FnOnce(usize) -> usize) -> usize {
        let old = self.access();
        self.put(f(old));
        old
    }

    pub fn swap(&self, v: usize, _: Ordering) -> usize {
        self.apply(|_| v)
    }

    pub fn fetch_add(&self, v: usize, _: Ordering) -> usize {
        self.apply(|x| x.wrapping_add(v))
    }

    pub fn fetch_sub(&self, v: usize, _: Ordering) -> usize {
        self.apply(|x| x.wrapping_sub(v))
    }

    pub fn fetch_and(&self, v: usize, _: Ordering) -> usize {
        self.apply(|x| x & v)
    }

    pub fn fetch_or(&self, v: usize, _: Ordering) -> usize {
        self.apply(|x| x | v)
    }

    pub fn fetch_xor(&self, v: usize, _: Ordering) -> usize {
        self.apply(|x| x ^ v)
    }

    pub fn fetch_min(&self, v: usize, _: Ordering) -> usize {
        self.apply(|x| x.min(v))
    }

    pub fn fetch_max(&self, v: usize, _: Ordering) -> usize {
        self.apply(|x| x.max(v))
    }

    pub fn compare_exchange(&self, current: usize, new: usize, _: Ordering, _: Ordering) -> Result<usize, usize> {
        let old = self.access();
        if old == current {
            self.put(new);
            Ok(old)
        } else {
            Err(old)
        }
    }

    pub fn compare_exchange_weak(&self, current: usize, new: usize, a: Ordering, b: Ordering) -> Result<usize, usize> {
        let r = unsafe { &mut *core::ptr::addr_of_mut!(RECORD) };
        if r.on && r.spurious > 0 && kani::any() {
            r.spurious -= 1;
            return Err(self.access());
        }
        self.compare_exchange(current, new, a, b)
    }

    pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(&self, set: Ordering, fetch: Ordering, mut f: F) -> Result<usize, usize> {
        let mut prev = self.load(fetch);
        while let Some(next) = f(prev) {
            match self.compare_exchange_weak(prev, next, set, fetch) {
                x @ Ok(_) => return x,
                Err(now) => prev = now,
            }
        }
        Err(prev)
    }

    pub fn try_update(&self, set: Ordering, fetch: Ordering, f: impl FnMut(usize) -> Option<usize>) -> Result<usize, usize> {
        self.fetch_update(set, fetch, f)
    }

    pub fn update(&self, set: Ordering, fetch: Ordering, mut f: impl FnMut(usize) -> usize) -> usize {
        match self.fetch_update(set, fetch, |x| Some(f(x))) {
            Ok(x) | Err(x) => x,
        }
    }
}
