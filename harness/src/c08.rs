//! C08: hands are multisets.
use shogi_core::contracts as spec;
use shogi_core::*;

fn_check!(new, [Hand::new], | | Hand::new() => |r| spec::hand_new(r));
fn_check!(added, [Hand::added], |h: Hand, k: PieceKind| h.added(k) => |r| spec::hand_added(h, k, r));
fn_check!(removed, [Hand::removed], |h: Hand, k: PieceKind| h.removed(k) => |r| spec::hand_removed(h, k, r));
fn_check!(count, [Hand::count], |h: Hand, k: PieceKind| h.count(k) => |r| spec::hand_count(h, k, r));
fn_check!(add_c, [Hand::Hand_add], mut h: Hand, |old, k: PieceKind| h.Hand_add(k) => |r| spec::hand_add_c(old, h, k, r));
fn_check!(remove_c, [Hand::Hand_remove], mut h: Hand, |old, k: PieceKind| h.Hand_remove(k) => |r| spec::hand_remove_c(old, h, k, r));
fn_check!(count_c, [Hand::Hand_count], |h: Hand, k: PieceKind| h.Hand_count(k) => |r| spec::hand_count_c(h, k, r));
fn_check!(is_hand_piece, [Hand::is_hand_piece], |k: PieceKind| Hand::is_hand_piece(k) => |r| spec::hand_is_hand_piece(k, r));
fn_check!(is_hand_piece_c, [Hand::Hand_is_hand_piece], |k: PieceKind| Hand::Hand_is_hand_piece(k) => |r| spec::hand_is_hand_piece(k, r));

lemma!(multiset, {
    let h: Hand = kani::any();
    let (k, l): (PieceKind, PieceKind) = (kani::any(), kani::any());
    if let Some(more) = h.added(k) {
        assert!(more.removed(k) == if h.count(k) == Some(255) { None } else { Some(h) }, "removed undoes added");
        assert!(k == l || more.count(l) == h.count(l), "the other counts stay");
    }
    if let Some(fewer) = h.removed(k) {
        assert!(fewer.added(k) == Some(h), "added undoes removed");
        assert!(k == l || fewer.count(l) == h.count(l), "the other counts stay");
    }
    assert!(Hand::default().count(k).unwrap_or(0) == 0, "the default is empty");
});

lemma!(equality, {
    let (g, h): (Hand, Hand) = (kani::any(), kani::any());
    assert!((g == h) == spec::hand_same(g, h), "hands are equal if all counts are");
    assert!((g != h) == !spec::hand_same(g, h), "hands differ if any count does");
});

lemma!(all_hand_pieces, {
    let mut n = 0u8;
    for k in Hand::all_hand_pieces() {
        n += 1;
        assert!(spec::raw8(k) == n, "in the order of their discriminants");
    }
    assert!(n as usize == Hand::NUM_HAND_PIECES && n == 7, "seven kinds");
});
