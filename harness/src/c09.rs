//! C09: all views of a position agree after every way of making or changing it.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

pub mod light {
    use super::*;

    fn_check!(empty, [PartialPosition::empty], | | PartialPosition::empty() => |r| spec::pos_empty(&r));
    fn_check!(startpos, [PartialPosition::startpos], | | PartialPosition::startpos() => |r| spec::pos_startpos(&r));
    fn_check!(occupied_bitboard, [PartialPosition::occupied_bitboard], |p: PartialPosition| p.occupied_bitboard() => |r| spec::pos_occupied(&p, r));
    fn_check!(vacant_bitboard, [PartialPosition::vacant_bitboard], |p: PartialPosition| p.vacant_bitboard() => |r| spec::pos_vacant(&p, r));
    fn_check!(piece_bitboard, [PartialPosition::piece_bitboard], |p: PartialPosition, piece: Piece| p.piece_bitboard(piece) => |r| spec::pos_piece_bitboard(&p, piece, r));
    fn_check!(piece_at, [PartialPosition::piece_at], |p: PartialPosition, s: Square| p.piece_at(s) => |r| spec::pos_piece_at(&p, s, r));
    fn_check!(hand, [PartialPosition::hand], |p: PartialPosition, piece: Piece| p.hand(piece) => |r| spec::pos_hand(&p, piece, r));
    fn_check!(last_move, [PartialPosition::last_move], |p: PartialPosition| p.last_move() => |r| spec::pos_last_move(&p, r));
    fn_check!(last_compact_move, [PartialPosition::last_compact_move], |p: PartialPosition| p.last_compact_move() => |r| spec::pos_last_compact_move(&p, r));

    // `Default` is a trait impl, and the C constructor writes to uninitialised memory.
    lemma!(default, {
        assert!(spec::pos_startpos(&PartialPosition::default()), "the default position is the starting position");
    });
    lemma!(startpos_c, {
        let mut buf = core::mem::MaybeUninit::uninit();
        PartialPosition::PartialPosition_startpos(&mut buf);
        assert!(spec::pos_startpos(unsafe { buf.assume_init_ref() }), "the C constructor makes the starting position");
    });

    // What the representation invariant means to users.
    lemma!(views_agree, {
        let p: PartialPosition = kani::any();
        let (s, piece): (Square, Piece) = (kani::any(), kani::any());
        kani::assume(spec::views_agree_at(&p, s) && spec::well_formed(&spec::view(&p)));
        let on = p.piece_at(s);
        let (kind, color) = piece.to_parts();
        assert!(p.occupied_bitboard().contains(s) == on.is_some(), "occupied squares have a piece");
        assert!(p.vacant_bitboard().contains(s) == on.is_none(), "vacant squares have none");
        assert!(p.player_bitboard(color).contains(s) == on.map_or(false, |x| x.color() == color), "a player's squares");
        assert!(p.piece_kind_bitboard(kind).contains(s) == on.map_or(false, |x| x.piece_kind() == kind), "a kind's squares");
        assert!(p.piece_bitboard(piece).contains(s) == (on == Some(piece)), "a piece's squares");
        let king = Piece::new(PieceKind::King, color);
        if p.king_position(color) == Some(s) {
            assert!(on == Some(king), "there is a king where one is reported");
        }
        if on == Some(king) {
            assert!(p.king_position(color).is_some(), "a king on the board is reported");
        }
    });
}

pub mod heavy {
    use super::*;

    fn_check!(piece_set, [PartialPosition::piece_set], mut p: PartialPosition, |old, s: Square, piece: Option<Piece>|
        requires spec::piece_set_pre(&p, s); p.piece_set(s, piece) => |_r| spec::piece_set_post(&old, &p, s, piece));
    fn_check!(side_to_move_set, [PartialPosition::side_to_move_set], mut p: PartialPosition, |old, side: Color|
        p.side_to_move_set(side) => |_r| spec::side_to_move_set_post(&old, &p, side));
    fn_check!(ply_set, [PartialPosition::ply_set], mut p: PartialPosition, |old, ply: u16|
        p.ply_set(ply) => |r| spec::ply_set_post(&old, &p, ply, r));

    // A contract cannot speak about what is written through a reference that is returned.
    lemma!(hand_of_a_player_mut, {
        let mut p: PartialPosition = kani::any();
        let (c, h): (Color, Hand) = (kani::any(), kani::any());
        let old = spec::snapshot(&p);
        assert!(*p.hand_of_a_player_mut(c) == old.hand_of_a_player(c), "it refers to the hand");
        *p.hand_of_a_player_mut(c) = h;
        let (s, v, mut w) = (spec::probe(), spec::view(&old), spec::view(&p));
        assert!(p.hand_of_a_player(c) == h, "the hand is what was written");
        w.hand[spec::ci(c)] = v.hand[spec::ci(c)];
        assert!(spec::at(&old, s) == spec::at(&p, s) && spec::same_views(&v, &w), "nothing else is written");
    });

    // The induction step: if the views agree on the squares of the move and on another square, they
    // do so after the move.
    lemma!(make_move_views, {
        let mut p: PartialPosition = kani::any();
        let (mv, s): (Move, Square) = (kani::any(), kani::any());
        kani::assume(spec::make_move_pre(&p, mv) && spec::views_agree_at(&p, s));
        let _ = p.make_move(mv);
        assert!(spec::views_agree_at(&p, s), "the views agree after a move");
    });
    make_move_clause!(make_move_reps, "bitboards and hands are valid after a move",
        |old, new, mv, ok, effect| spec::reps_ok(&spec::view(&new)));
    make_move_clause!(#[kani::solver(minisat)] make_move_kings, "the reported kings are on the board after a move",
        |old, new, mv, ok, effect| spec::kings_agree(&spec::view(&new)));
}
