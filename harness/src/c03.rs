//! C03: draining a bitboard yields every member exactly once.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

fn_check!(pop, [Bitboard::pop], mut a: Bitboard, |old| a.pop() => |r| spec::bb_pop(old, a, r));
fn_check!(pop_c, [Bitboard::Bitboard_pop], mut a: Bitboard, |old| a.Bitboard_pop() => |r| spec::bb_pop_c(old, a, r));
fn_check!(is_empty, [Bitboard::is_empty], |b: Bitboard| b.is_empty() => |r| spec::bb_is_empty(b, r));
fn_check!(count, [Bitboard::count], |b: Bitboard| b.count() => |r| spec::bb_count(b, r));
fn_check!(contains, [Bitboard::contains], |b: Bitboard, s: Square| b.contains(s) => |r| spec::bb_contains(b, s, r));

// Contracts cannot be attached to methods of the `Iterator` impl.
lemma!(next, {
    let mut a: Bitboard = kani::any();
    let old = a;
    let r = Iterator::next(&mut a);
    assert!(spec::bb_pop(old, a, r), "next removes a member");
    let mut b = old;
    assert!(b.pop() == r && a == b, "next and pop agree");
});

lemma!(size_hint, {
    let a: Bitboard = kani::any();
    let (low, high) = Iterator::size_hint(&a);
    let n = spec::set(a).count_ones() as usize;
    assert!(low <= n, "the lower bound of size_hint");
    assert!(high.map_or(true, |high| n <= high), "the upper bound of size_hint");
});

// The induction step of "a drain ends after count() steps and yields every member once".
lemma!(drain_step, {
    let mut a: Bitboard = kani::any();
    let s: Square = kani::any();
    let (member, count) = (a.contains(s), a.count());
    let r = a.next();
    assert!(r.is_some() == (count > 0), "there is a next square unless the set is empty");
    if r.is_some() {
        assert!(a.count() == count - 1, "one member fewer after every step");
    }
    assert!(a.contains(s) == (member && r != Some(s)), "the yielded square, and no other, is gone");
});

// Whole drains, by a loop of the user's and by the adaptors of `Iterator`, of sets of at most two
// members. (Bounded. The steps above are for all sets.)
lemma!(#[kani::unwind(5)] bounded_loop, {
    let (s, t): (Square, Square) = (kani::any(), kani::any());
    let a = Bitboard::single(s) | Bitboard::single(t);
    let q: Square = kani::any();
    let mut seen = 0u8;
    let mut steps = 0u8;
    for x in a {
        steps += 1;
        seen += (x == q) as u8;
    }
    assert!(steps == a.count(), "a loop takes count() steps");
    assert!(seen == a.contains(q) as u8, "a loop sees every member once");
});

lemma!(#[kani::unwind(18)] bounded_adaptors, {
    let (s, t): (Square, Square) = (kani::any(), kani::any());
    let a = Bitboard::single(s) | Bitboard::single(t);
    let mut b = a;
    assert!(Iterator::count(a) == a.count() as usize, "Iterator::count");
    let first = b.next();
    let mut c = a;
    assert!(c.nth(1) == b.next() && c == b, "Iterator::nth");
});
