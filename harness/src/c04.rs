//! C04: shifts and file access.
use shogi_core::contracts as spec;
use shogi_core::*;

fn_check!(shift_down, [Bitboard::shift_down], |b: Bitboard, delta: u8| requires delta <= 9; unsafe { b.shift_down(delta) } => |r| spec::bb_shift_down(b, delta, r));
fn_check!(shift_up, [Bitboard::shift_up], |b: Bitboard, delta: u8| requires delta <= 9; unsafe { b.shift_up(delta) } => |r| spec::bb_shift_up(b, delta, r));
fn_check!(shift_left, [Bitboard::shift_left], |b: Bitboard, delta: u8| requires delta <= 9; unsafe { b.shift_left(delta) } => |r| spec::bb_shift_left(b, delta, r));
fn_check!(shift_right, [Bitboard::shift_right], |b: Bitboard, delta: u8| requires delta <= 9; unsafe { b.shift_right(delta) } => |r| spec::bb_shift_right(b, delta, r));
fn_check!(from_file, [Bitboard::from_file_unchecked], |file: u8, pattern: u16| requires 1 <= file && file <= 9 && pattern < 512; unsafe { Bitboard::from_file_unchecked(file, pattern) } => |r| spec::bb_from_file(file, pattern, r));
fn_check!(get_file, [Bitboard::get_file_unchecked], |b: Bitboard, file: u8| requires 1 <= file && file <= 9; unsafe { b.get_file_unchecked(file) } => |r| spec::bb_get_file(b, file, r));

macro_rules! by_square {
    ($name:ident, $shift:ident, $file:expr, $rank:expr) => {
        lemma!($name, {
            let b: Bitboard = kani::any();
            let (delta, s): (u8, Square) = (kani::any(), kani::any());
            kani::assume(delta <= 9);
            let d = delta as i8;
            let source = s.shift(-($file * d), -($rank * d));
            let r = unsafe { b.$shift(delta) };
            assert!(
                r.contains(s) == source.map_or(false, |source| b.contains(source)),
                concat!(stringify!($shift), " moves every member by the same distance")
            );
        });
    };
}

by_square!(down_by_square, shift_down, 0, 1);
by_square!(up_by_square, shift_up, 0, -1);
by_square!(left_by_square, shift_left, 1, 0);
by_square!(right_by_square, shift_right, -1, 0);

lemma!(file_by_square, {
    let b: Bitboard = kani::any();
    let (file, s): (u8, Square) = (kani::any(), kani::any());
    kani::assume(1 <= file && file <= 9);
    let pattern = unsafe { b.get_file_unchecked(file) };
    assert!(pattern < 512, "nine bits");
    let back = unsafe { Bitboard::from_file_unchecked(file, pattern) };
    assert!(
        back.contains(s) == (b.contains(s) && s.file() == file),
        "from_file is the inverse of get_file"
    );
    if s.file() == file {
        assert!(
            (pattern >> (s.rank() - 1)) & 1 == b.contains(s) as u16,
            "bit n of a file is rank n + 1"
        );
    }
});
