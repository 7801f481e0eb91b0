//! C02: bitboards are sets of squares.
use core::ops::*;
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

fn_check!(empty, [Bitboard::empty], | | Bitboard::empty() => |r| spec::bb_empty(r));
fn_check!(empty_c, [Bitboard::Bitboard_empty], | | Bitboard::Bitboard_empty() => |r| spec::bb_empty(r));
fn_check!(single, [Bitboard::single], |s: Square| Bitboard::single(s) => |r| spec::bb_single(s, r));
fn_check!(single_c, [Bitboard::Bitboard_single], |s: Square| Bitboard::Bitboard_single(s) => |r| spec::bb_single(s, r));
fn_check!(count, [Bitboard::count], |b: Bitboard| b.count() => |r| spec::bb_count(b, r));
fn_check!(is_empty, [Bitboard::is_empty], |b: Bitboard| b.is_empty() => |r| spec::bb_is_empty(b, r));
fn_check!(contains, [Bitboard::contains], |b: Bitboard, s: Square| b.contains(s) => |r| spec::bb_contains(b, s, r));
fn_check!(flip, [Bitboard::flip], |b: Bitboard| b.flip() => |r| spec::bb_flip(b, r));
fn_check!(or, [Bitboard::or], |a: Bitboard, b: Bitboard| a.or(b) => |r| spec::bb_or(a, b, r));
fn_check!(and, [Bitboard::and], |a: Bitboard, b: Bitboard| a.and(b) => |r| spec::bb_and(a, b, r));
fn_check!(xor, [Bitboard::xor], |a: Bitboard, b: Bitboard| a.xor(b) => |r| spec::bb_xor(a, b, r));
fn_check!(andnot, [Bitboard::andnot], |a: Bitboard, b: Bitboard| a.andnot(b) => |r| spec::bb_andnot(a, b, r));
fn_check!(bitand_c, [Bitboard::Bitboard_bitand], |a: Bitboard, b: Bitboard| Bitboard::Bitboard_bitand(a, b) => |r| spec::bb_and(a, b, r));
fn_check!(bitor_c, [Bitboard::Bitboard_bitor], |a: Bitboard, b: Bitboard| Bitboard::Bitboard_bitor(a, b) => |r| spec::bb_or(a, b, r));
fn_check!(bitxor_c, [Bitboard::Bitboard_bitxor], |a: Bitboard, b: Bitboard| Bitboard::Bitboard_bitxor(a, b) => |r| spec::bb_xor(a, b, r));
fn_check!(bitand_assign_c, [Bitboard::Bitboard_bitand_assign], mut a: Bitboard, |old, b: Bitboard| Bitboard::Bitboard_bitand_assign(&mut a, b) => |r| spec::bb_and(old, b, a));
fn_check!(bitor_assign_c, [Bitboard::Bitboard_bitor_assign], mut a: Bitboard, |old, b: Bitboard| Bitboard::Bitboard_bitor_assign(&mut a, b) => |r| spec::bb_or(old, b, a));
fn_check!(bitxor_assign_c, [Bitboard::Bitboard_bitxor_assign], mut a: Bitboard, |old, b: Bitboard| Bitboard::Bitboard_bitxor_assign(&mut a, b) => |r| spec::bb_xor(old, b, a));

macro_rules! operator {
    ($name:ident, $method:ident, $assign:ident, $spec:path) => {
        lemma!($name, {
            let (a, b): (Bitboard, Bitboard) = (kani::any(), kani::any());
            let s: Square = kani::any();
            let single = Bitboard::single(s);
            assert!($spec(a, b, a.$method(b)), concat!("value ", stringify!($method), " value"));
            assert!($spec(a, b, a.$method(&b)), concat!("value ", stringify!($method), " reference"));
            assert!($spec(a, b, (&a).$method(b)), concat!("reference ", stringify!($method), " value"));
            assert!($spec(a, b, (&a).$method(&b)), concat!("reference ", stringify!($method), " reference"));
            let mut x = a;
            x.$assign(b);
            assert!($spec(a, b, x), concat!(stringify!($assign), " of a value"));
            let mut x = a;
            x.$assign(&b);
            assert!($spec(a, b, x), concat!(stringify!($assign), " of a reference"));
            let mut x = a;
            x.$assign(s);
            assert!($spec(a, single, x), concat!(stringify!($assign), " of a square"));
            let mut x = a;
            x.$assign(&s);
            assert!($spec(a, single, x), concat!(stringify!($assign), " of a reference to a square"));
        });
    };
}

operator!(operator_and, bitand, bitand_assign, spec::bb_and);
operator!(operator_or, bitor, bitor_assign, spec::bb_or);
operator!(operator_xor, bitxor, bitxor_assign, spec::bb_xor);

lemma!(operator_not, {
    let a: Bitboard = kani::any();
    assert!(spec::bb_not(a, !a), "not of a value");
    assert!(spec::bb_not(a, !&a), "not of a reference");
    assert!(spec::bb_empty(Bitboard::default()), "the default is empty");
});

lemma!(equality_is_set_equality, {
    let (a, b): (Bitboard, Bitboard) = (kani::any(), kani::any());
    assert!((a == b) == (spec::set(a) == spec::set(b)), "== compares sets");
    assert!((a != b) == (spec::set(a) != spec::set(b)), "!= compares sets");
});

lemma!(membership, {
    let (a, b): (Bitboard, Bitboard) = (kani::any(), kani::any());
    let s: Square = kani::any();
    assert!((a & b).contains(s) == (a.contains(s) && b.contains(s)), "intersection");
    assert!((a | b).contains(s) == (a.contains(s) || b.contains(s)), "union");
    assert!((a ^ b).contains(s) == (a.contains(s) != b.contains(s)), "symmetric difference");
    assert!(a.andnot(b).contains(s) == (!a.contains(s) && b.contains(s)), "difference");
    assert!((!a).contains(s) == !a.contains(s), "complement");
    assert!(a.flip().contains(s) == a.contains(s.flip()), "point reflection");
    assert!(a.flip().flip() == a, "flip is its own inverse");
});

// Not in the public interface of the crate: reached from C, or by other functions of the crate.
fn_check!(not_c, [spec::Bitboard_not], |a: Bitboard| spec::Bitboard_not(a) => |r| spec::bb_not(a, r));
fn_check!(single_inlined, [Bitboard::single_inlined], |s: Square| spec::bitboard_single_inlined(s) => |r| spec::bb_single(s, r));
