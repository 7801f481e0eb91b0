//! C07: moves and their two-byte form.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

fn_check!(move_from, [Move::from], |m: Move| Move::from(m) => |r| spec::move_from(m, r));
fn_check!(move_to, [Move::to], |m: Move| m.to() => |r| spec::move_to(m, r));
fn_check!(move_is_promoting, [Move::is_promoting], |m: Move| m.is_promoting() => |r| spec::move_is_promoting(m, r));
fn_check!(move_is_drop, [Move::is_drop], |m: Move| m.is_drop() => |r| spec::move_is_drop(m, r));
fn_check!(compact_normal, [CompactMove::normal], |from: Square, to: Square, promote: bool| CompactMove::normal(from, to, promote) => |r| spec::compact_normal(from, to, promote, r));
fn_check!(compact_drop, [CompactMove::drop], |piece: Piece, to: Square| CompactMove::drop(piece, to) => |r| spec::compact_drop(piece, to, r));
fn_check!(compact_from, [CompactMove::from], |m: CompactMove| CompactMove::from(m) => |r| spec::compact_from(m, r));
fn_check!(compact_from_c, [CompactMove::CompactMove_from], |m: CompactMove| m.CompactMove_from() => |r| spec::compact_from_c(m, r));
fn_check!(compact_to, [CompactMove::to], |m: CompactMove| m.to() => |r| spec::compact_to(m, r));
fn_check!(compact_is_promoting, [CompactMove::is_promoting], |m: CompactMove| m.is_promoting() => |r| spec::compact_is_promoting(m, r));
fn_check!(compact_is_drop, [CompactMove::is_drop], |m: CompactMove| m.is_drop() => |r| spec::compact_is_drop(m, r));

lemma!(pack, {
    let m: Move = kani::any();
    let c = <CompactMove as From<Move>>::from(m);
    assert!(spec::raw16(c) == spec::move_code(m), "the documented two-byte form");
    assert!(spec::compact_code_ok(spec::raw16(c)), "a valid two-byte form");
    assert!(spec::same_move(<Move as From<CompactMove>>::from(c), m), "unpacking undoes packing");
});

lemma!(unpack, {
    let c: CompactMove = kani::any();
    let m = <Move as From<CompactMove>>::from(c);
    assert!(spec::same_move(m, spec::move_of(c)), "the move a two-byte form stands for");
    assert!(spec::same16(<CompactMove as From<Move>>::from(m), c), "packing undoes unpacking");
    assert!(Move::from(m) == CompactMove::from(c), "from agrees");
    assert!(m.to() == c.to(), "to agrees");
    assert!(m.is_promoting() == c.is_promoting(), "is_promoting agrees");
    assert!(m.is_drop() == c.is_drop(), "is_drop agrees");
});

lemma!(injective, {
    let (m, n): (Move, Move) = (kani::any(), kani::any());
    let (c, d) = (<CompactMove as From<Move>>::from(m), <CompactMove as From<Move>>::from(n));
    assert!((c == d) == spec::same_move(m, n), "different moves have different two-byte forms");
    assert!((m == n) == spec::same_move(m, n), "equality of moves");
});
