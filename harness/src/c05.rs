//! C05: byte-swapped bitboards and 128-bit representations.
use shogi_core::contracts as spec;
use shogi_core::*;

fn_check!(to_u128, [Bitboard::to_u128], |b: Bitboard| b.to_u128() => |r| spec::bb_to_u128(b, r));
fn_check!(from_u128, [Bitboard::from_u128_unchecked], |a: u128| requires spec::rep_ok(a); unsafe { Bitboard::from_u128_unchecked(a) } => |r| spec::bb_from_u128(a, r));
fn_check!(swap_bytes, [Bitboard::swap_bytes], |b: Bitboard| b.swap_bytes() => |r| spec::bb_swap_bytes(b, r));
fn_check!(swapped_swap_bytes, [ByteSwappedBitboard::swap_bytes], |b: ByteSwappedBitboard| b.swap_bytes() => |r| spec::bsb_swap_bytes(b, r));
fn_check!(swapped_to_u128, [ByteSwappedBitboard::to_u128], |b: ByteSwappedBitboard| b.to_u128() => |r| spec::bsb_to_u128(b, r));
fn_check!(swapped_from_u128, [ByteSwappedBitboard::from_u128_unchecked], |a: u128| requires spec::rep_ok(a.swap_bytes()); unsafe { ByteSwappedBitboard::from_u128_unchecked(a) } => |r| spec::bsb_from_u128(a, r));
fn_check!(swapped_or, [ByteSwappedBitboard::or], |a: ByteSwappedBitboard, b: ByteSwappedBitboard| a.or(b) => |r| spec::bsb_or(a, b, r));
fn_check!(swapped_and, [ByteSwappedBitboard::and], |a: ByteSwappedBitboard, b: ByteSwappedBitboard| a.and(b) => |r| spec::bsb_and(a, b, r));
fn_check!(swapped_xor, [ByteSwappedBitboard::xor], |a: ByteSwappedBitboard, b: ByteSwappedBitboard| a.xor(b) => |r| spec::bsb_xor(a, b, r));
fn_check!(swapped_andnot, [ByteSwappedBitboard::andnot], |a: ByteSwappedBitboard, b: ByteSwappedBitboard| a.andnot(b) => |r| spec::bsb_andnot(a, b, r));

lemma!(round_trips, {
    let (a, b): (Bitboard, Bitboard) = (kani::any(), kani::any());
    let (x, y) = (a.swap_bytes(), b.swap_bytes());
    assert!(x.swap_bytes() == a, "swapping twice");
    assert!(unsafe { Bitboard::from_u128_unchecked(a.to_u128()) } == a, "to_u128 and back");
    assert!(
        unsafe { ByteSwappedBitboard::from_u128_unchecked(x.to_u128()) } == x,
        "to_u128 and back, byte-swapped"
    );
    assert!(x.to_u128() == a.to_u128().swap_bytes(), "the bytes are reversed");
    assert!(x.or(y).swap_bytes() == a.or(b), "union under swapping");
    assert!(x.and(y).swap_bytes() == a.and(b), "intersection under swapping");
    assert!(x.xor(y).swap_bytes() == a.xor(b), "symmetric difference under swapping");
    assert!(x.andnot(y).swap_bytes() == a.andnot(b), "difference under swapping");
    assert!((x == y) == (a == b), "equality under swapping");
    assert!(ByteSwappedBitboard::default() == Bitboard::empty().swap_bytes(), "the default is empty");
});

lemma!(layout, {
    let s: Square = kani::any();
    let i = s.index() as u32;
    let bit = if i <= 63 { i - 1 } else { i };
    assert!(
        Bitboard::single(s).to_u128() == 1u128 << bit,
        "squares 1 to 63 are bits 0 to 62, squares 64 to 81 are bits 64 to 81"
    );
});
