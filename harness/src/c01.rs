//! C01: coordinates, indices and constants of squares.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

fn_check!(square_new, [Square::new], |file: u8, rank: u8| Square::new(file, rank) => |r| spec::square_new(file, rank, r));
fn_check!(square_new_c, [Square::Square_new], |file: u8, rank: u8| Square::Square_new(file, rank) => |r| spec::square_new_c(file, rank, r));
fn_check!(square_new_relative, [Square::new_relative], |file: u8, rank: u8, color: Color| Square::new_relative(file, rank, color) => |r| spec::square_new_relative(file, rank, color, r));
fn_check!(square_new_relative_c, [Square::Square_new_relative], |file: u8, rank: u8, color: Color| Square::Square_new_relative(file, rank, color) => |r| spec::square_new_relative_c(file, rank, color, r));
fn_check!(square_file, [Square::file], |s: Square| s.file() => |r| spec::square_file(s, r));
fn_check!(square_rank, [Square::rank], |s: Square| s.rank() => |r| spec::square_rank(s, r));
fn_check!(square_index, [Square::index], |s: Square| s.index() => |r| spec::square_index(s, r));
fn_check!(square_array_index, [Square::array_index], |s: Square| s.array_index() => |r| spec::square_array_index(s, r));
fn_check!(square_relative_file, [Square::relative_file], |s: Square, color: Color| s.relative_file(color) => |r| spec::square_relative_file(s, color, r));
fn_check!(square_relative_rank, [Square::relative_rank], |s: Square, color: Color| s.relative_rank(color) => |r| spec::square_relative_rank(s, color, r));
fn_check!(square_flip, [Square::flip], |s: Square| s.flip() => |r| spec::square_flip(s, r));
fn_check!(square_from_u8, [Square::from_u8], |value: u8| Square::from_u8(value) => |r| spec::square_from_u8(value, r));
fn_check!(square_from_u8_unchecked, [Square::from_u8_unchecked], |v: u8| requires spec::sq_code_ok(v); unsafe { Square::from_u8_unchecked(v) } => |r| spec::square_from_u8_unchecked(v, r));
fn_check!(square_from_u8_unchecked_c, [Square::Square_from_u8_unchecked], |v: u8| requires spec::sq_code_ok(v); unsafe { Square::Square_from_u8_unchecked(v) } => |r| spec::square_from_u8_unchecked(v, r));
fn_check!(square_shift, [Square::shift], |s: Square, f: i8, r: i8| s.shift(f, r) => |x| spec::square_shift(s, f, r, x));

lemma!(square_round_trips, {
    let s: Square = kani::any();
    let c: Color = kani::any();
    assert!(Square::new(s.file(), s.rank()) == Some(s), "new is the inverse of file and rank");
    assert!(
        Square::new_relative(s.relative_file(c), s.relative_rank(c), c) == Some(s),
        "new_relative is the inverse of relative_file and relative_rank"
    );
    assert!(s.flip().flip() == s, "flip is its own inverse");
    assert!(Square::from_u8(s.index()) == Some(s), "from_u8 is the inverse of index");
});

lemma!(square_shift_back, {
    let s: Square = kani::any();
    let (f, r): (i8, i8) = (kani::any(), kani::any());
    kani::assume(-8 <= f && f <= 8 && -8 <= r && r <= 8);
    if let Some(t) = s.shift(f, r) {
        assert!(t.shift(-f, -r) == Some(s), "shifting back undoes a shift");
        assert!(t.flip().shift(f, r) == Some(s.flip()), "flip reverses shifts");
    }
});

lemma!(square_all, {
    let mut i = 0u8;
    for s in Square::all() {
        i += 1;
        assert!(spec::raw8(s) == i, "all squares, in the order of their indices");
    }
    assert!(i == 81, "all() yields 81 squares");
    assert!(Square::NUM == 81, "NUM is 81");
});

lemma!(square_constants, {
    let inherent = [Square::SQ_1A, Square::SQ_1B, Square::SQ_1C, Square::SQ_1D, Square::SQ_1E, Square::SQ_1F, Square::SQ_1G, Square::SQ_1H, Square::SQ_1I, Square::SQ_2A, Square::SQ_2B, Square::SQ_2C, Square::SQ_2D, Square::SQ_2E, Square::SQ_2F, Square::SQ_2G, Square::SQ_2H, Square::SQ_2I, Square::SQ_3A, Square::SQ_3B, Square::SQ_3C, Square::SQ_3D, Square::SQ_3E, Square::SQ_3F, Square::SQ_3G, Square::SQ_3H, Square::SQ_3I, Square::SQ_4A, Square::SQ_4B, Square::SQ_4C, Square::SQ_4D, Square::SQ_4E, Square::SQ_4F, Square::SQ_4G, Square::SQ_4H, Square::SQ_4I, Square::SQ_5A, Square::SQ_5B, Square::SQ_5C, Square::SQ_5D, Square::SQ_5E, Square::SQ_5F, Square::SQ_5G, Square::SQ_5H, Square::SQ_5I, Square::SQ_6A, Square::SQ_6B, Square::SQ_6C, Square::SQ_6D, Square::SQ_6E, Square::SQ_6F, Square::SQ_6G, Square::SQ_6H, Square::SQ_6I, Square::SQ_7A, Square::SQ_7B, Square::SQ_7C, Square::SQ_7D, Square::SQ_7E, Square::SQ_7F, Square::SQ_7G, Square::SQ_7H, Square::SQ_7I, Square::SQ_8A, Square::SQ_8B, Square::SQ_8C, Square::SQ_8D, Square::SQ_8E, Square::SQ_8F, Square::SQ_8G, Square::SQ_8H, Square::SQ_8I, Square::SQ_9A, Square::SQ_9B, Square::SQ_9C, Square::SQ_9D, Square::SQ_9E, Square::SQ_9F, Square::SQ_9G, Square::SQ_9H, Square::SQ_9I];
    let module = [consts::square::SQ_1A, consts::square::SQ_1B, consts::square::SQ_1C, consts::square::SQ_1D, consts::square::SQ_1E, consts::square::SQ_1F, consts::square::SQ_1G, consts::square::SQ_1H, consts::square::SQ_1I, consts::square::SQ_2A, consts::square::SQ_2B, consts::square::SQ_2C, consts::square::SQ_2D, consts::square::SQ_2E, consts::square::SQ_2F, consts::square::SQ_2G, consts::square::SQ_2H, consts::square::SQ_2I, consts::square::SQ_3A, consts::square::SQ_3B, consts::square::SQ_3C, consts::square::SQ_3D, consts::square::SQ_3E, consts::square::SQ_3F, consts::square::SQ_3G, consts::square::SQ_3H, consts::square::SQ_3I, consts::square::SQ_4A, consts::square::SQ_4B, consts::square::SQ_4C, consts::square::SQ_4D, consts::square::SQ_4E, consts::square::SQ_4F, consts::square::SQ_4G, consts::square::SQ_4H, consts::square::SQ_4I, consts::square::SQ_5A, consts::square::SQ_5B, consts::square::SQ_5C, consts::square::SQ_5D, consts::square::SQ_5E, consts::square::SQ_5F, consts::square::SQ_5G, consts::square::SQ_5H, consts::square::SQ_5I, consts::square::SQ_6A, consts::square::SQ_6B, consts::square::SQ_6C, consts::square::SQ_6D, consts::square::SQ_6E, consts::square::SQ_6F, consts::square::SQ_6G, consts::square::SQ_6H, consts::square::SQ_6I, consts::square::SQ_7A, consts::square::SQ_7B, consts::square::SQ_7C, consts::square::SQ_7D, consts::square::SQ_7E, consts::square::SQ_7F, consts::square::SQ_7G, consts::square::SQ_7H, consts::square::SQ_7I, consts::square::SQ_8A, consts::square::SQ_8B, consts::square::SQ_8C, consts::square::SQ_8D, consts::square::SQ_8E, consts::square::SQ_8F, consts::square::SQ_8G, consts::square::SQ_8H, consts::square::SQ_8I, consts::square::SQ_9A, consts::square::SQ_9B, consts::square::SQ_9C, consts::square::SQ_9D, consts::square::SQ_9E, consts::square::SQ_9F, consts::square::SQ_9G, consts::square::SQ_9H, consts::square::SQ_9I];
    let i: u8 = kani::any();
    kani::assume(i < 81);
    let code = spec::code_of((i / 9) as i16 + 1, (i % 9) as i16 + 1);
    assert!(spec::raw8(inherent[i as usize]) == code, "the constants of Square");
    assert!(spec::raw8(module[i as usize]) == code, "the constants in consts::square");
});
