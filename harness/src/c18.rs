//! C18: the option and result types of the C interface convert without loss.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

macro_rules! bridge8 {
    ($name:ident, $ty:ty, $c:ty) => {
        lemma!($name, {
            let x: Option<$ty> = kani::any();
            let c = <$c>::from(x);
            let code: u8 = unsafe { core::mem::transmute(c) };
            assert!(code == spec::opt8(x), "the documented encoding");
            let c: $c = unsafe { core::mem::transmute(code) };
            assert!(spec::opt8(<Option<$ty>>::from(c)) == code, "converting back");
            let any: $c = kani::any();
            let code: u8 = unsafe { core::mem::transmute_copy(&any) };
            let y = <Option<$ty>>::from(any);
            assert!(spec::opt8(y) == code, "the meaning of every encoding");
            let again: u8 = unsafe { core::mem::transmute(<$c>::from(y)) };
            assert!(again == code, "converting there again");
            assert!(core::mem::size_of::<$c>() == 1, "one byte");
        });
    };
}

bridge8!(option_square, Square, OptionSquare);
bridge8!(option_piece, Piece, OptionPiece);
bridge8!(option_piece_kind, PieceKind, OptionPieceKind);
bridge8!(option_game_resolution, GameResolution, OptionGameResolution);
bridge8!(option_illegal_move_kind, IllegalMoveKind, ResultUnitIllegalMoveKind);

fn result_code(x: Result<(), IllegalMoveKind>) -> u8 {
    match x {
        Ok(()) => 0,
        Err(e) => spec::raw8(e),
    }
}

lemma!(result_illegal_move_kind, {
    let e: Option<IllegalMoveKind> = kani::any();
    let x = match e {
        None => Ok(()),
        Some(e) => Err(e),
    };
    let c = ResultUnitIllegalMoveKind::from(x);
    assert!(spec::raw8(c) == result_code(x), "the documented encoding");
    let any: ResultUnitIllegalMoveKind = kani::any();
    let y = <Result<(), IllegalMoveKind>>::from(any);
    assert!(result_code(y) == spec::raw8(any), "the meaning of every encoding");
    assert!(spec::same8(ResultUnitIllegalMoveKind::from(y), any), "converting there again");
});

lemma!(option_compact_move, {
    let x: Option<CompactMove> = kani::any();
    let code = match x {
        None => 0,
        Some(m) => spec::raw16(m),
    };
    let c = OptionCompactMove::from(x);
    assert!(spec::raw16(c) == code, "the documented encoding");
    let any: OptionCompactMove = kani::any();
    let y = <Option<CompactMove>>::from(any);
    let code = match y {
        None => 0,
        Some(m) => spec::raw16(m),
    };
    assert!(code == spec::raw16(any), "the meaning of every encoding");
    assert!(spec::same16(OptionCompactMove::from(y), any), "converting there again");
});

lemma!(defaults, {
    assert!(spec::raw8(OptionGameResolution::default()) == 0, "no resolution");
    assert!(spec::raw8(ResultUnitIllegalMoveKind::default()) == 0, "success");
    assert!(spec::raw16(OptionCompactMove::default()) == 0, "no move");
});

// A one-byte value is never taken for another one: encodings of different values differ.
lemma!(illegal_move_kind, {
    let n: u8 = kani::any();
    assert!(spec::illegal_from_u8(n, IllegalMoveKind::from_u8(n)), "exactly the valid numbers are accepted");
});
fn_check!(illegal_from_u8, [IllegalMoveKind::from_u8], |n: u8| IllegalMoveKind::from_u8(n) => |r| spec::illegal_from_u8(n, r));
fn_check!(illegal_from_u8_unchecked, [IllegalMoveKind::from_u8_unchecked], |n: u8| requires 1 <= n && n <= 7; unsafe { IllegalMoveKind::from_u8_unchecked(n) } => |r| spec::illegal_from_u8_unchecked(n, r));
fn_check!(resolution_from_u8_unchecked, [GameResolution::from_u8_unchecked], |n: u8| requires 1 <= n && n <= 5; unsafe { GameResolution::from_u8_unchecked(n) } => |r| spec::resolution_from_u8_unchecked(n, r));
