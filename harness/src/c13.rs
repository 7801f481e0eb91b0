//! C13: a position with history: its initial position and moves replay to the current one.
//!
//! Induction step: from an arbitrary state, with a record of any length below a bound, one move.
// Assumption: the record has less than 65536 moves before the step, 1024 where its contents matter, and room for one more (growing is left to Vec)
extern crate alloc;
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

const LONG: usize = 1 << 16;
const SHORT: usize = 1 << 10;

fn any_position() -> Position {
    any_position_with(kani::any(), LONG)
}

/// A position with a record of `n` moves with arbitrary contents.
fn any_position_with(n: usize, room: usize) -> Position {
    kani::assume(n < room);
    let mut moves = alloc::vec::Vec::<Move>::with_capacity(room);
    unsafe { moves.set_len(n) };
    Position::from_parts(kani::any(), kani::any(), moves)
}

/// One clause of what `make_move` does to the current position. The clauses are those of C10.
macro_rules! step {
    ($name:ident, $text:literal, |$old:ident, $new:ident, $mv:ident, $ok:ident, $effect:ident| $post:expr) => {
        lemma!($name, {
            let mut p = any_position();
            let $mv: Move = kani::any();
            kani::assume(spec::make_move_pre(p.inner(), $mv));
            let $old = spec::snapshot(p.inner());
            let $effect = spec::effect(&$old, $mv);
            let $ok = p.make_move($mv).is_some();
            let $new = p.inner();
            assert!($post, $text);
            core::mem::forget(p);
        });
    };
}

pub mod heavy {
    use super::*;

    lemma!(success, {
        let mut p: Position = any_position();
        let mv: Move = kani::any();
        kani::assume(spec::make_move_pre(p.inner(), mv));
        let effect = spec::effect(p.inner(), mv);
        let n = p.moves().len();
        let ok = p.make_move(mv).is_some();
        assert!(ok == effect.is_some(), "a move succeeds exactly if it makes sense");
        assert!(p.moves().len() == n + ok as usize, "a successful move, and no other, is recorded");
        core::mem::forget(p);
    });
    step!(board, "the board after a move", |old, new, mv, ok, effect| match effect {
        Some(e) if ok => spec::moved_board(&old, new, &e),
        _ => true,
    });
    step!(bitboards, "the bitboards after a move", |old, new, mv, ok, effect| match effect {
        Some(e) if ok => spec::moved_bitboards(&old, new, &e),
        _ => true,
    });
    step!(hands_and_state, "the hands, the turn, the ply and the last move after a move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => {
                let (v, w) = (spec::view(&old), spec::view(new));
                spec::moved_hands(&v, &w, &e) && spec::moved_state(&v, &w, mv)
            }
            _ => true,
        });
    step!(failure, "a move that fails does not change the current position",
        |old, new, mv, ok, effect| ok || spec::same_position(&old, new));

    lemma!(initial, {
        let mut p = any_position();
        let mv: Move = kani::any();
        kani::assume(spec::make_move_pre(p.inner(), mv));
        let old = spec::snapshot(p.initial_position());
        let _ = p.make_move(mv);
        assert!(spec::same_position(&old, p.initial_position()), "the initial position is kept");
        core::mem::forget(p);
    });

    // The record, whatever making a move on the current position does (which is stated above):
    // stub of PartialPosition::make_move
    fn any_outcome(_: &mut PartialPosition, _: Move) -> Option<()> {
        kani::any()
    }

    // stub of Vec::push: there is room, so that it need not grow
    fn push<T, A: core::alloc::Allocator>(v: &mut alloc::vec::Vec<T, A>, x: T) {
        assert!(v.len() < v.capacity());
        unsafe {
            v.as_mut_ptr().add(v.len()).write(x);
            v.set_len(v.len() + 1);
        }
    }

    lemma!(#[kani::stub(shogi_core::PartialPosition::make_move, any_outcome)] #[kani::stub(alloc::vec::Vec::push, push)] record_kept, {
        let (n, packed): (usize, bool) = (kani::any(), kani::any());
        let mut p: Position = any_position_with(n, SHORT);
        let packed_mv: CompactMove = kani::any();
        let mv = spec::move_of(packed_mv);
        let i: usize = kani::any();
        kani::assume(i < n);
        let before = bytes(&p.moves()[i]);
        let ok = if packed { p.make_compact_move(packed_mv) } else { p.make_move(mv).is_some() };
        assert!(p.moves().len() == n + ok as usize, "a successful move, and no other, is recorded");
        assert!(bytes(&p.moves()[i]) == before, "the moves before are kept");
        core::mem::forget(p);
    });

    lemma!(#[kani::stub(shogi_core::PartialPosition::make_move, any_outcome)] #[kani::stub(alloc::vec::Vec::push, push)] record_appended, {
        let (n, packed): (usize, bool) = (kani::any(), kani::any());
        let mut p: Position = any_position_with(n, SHORT);
        let packed_mv: CompactMove = kani::any();
        let mv = spec::move_of(packed_mv);
        let ok = if packed { p.make_compact_move(packed_mv) } else { p.make_move(mv).is_some() };
        assert!(p.moves().len() == n + ok as usize, "a successful move, and no other, is recorded");
        if ok {
            assert!(spec::same_move(p.moves()[n], mv), "the move is recorded at the end");
        }
        core::mem::forget(p);
    });

    const SIZE: usize = core::mem::size_of::<Move>();
    fn bytes(m: &Move) -> [u8; SIZE] {
        unsafe { *(m as *const Move as *const [u8; SIZE]) }
    }

    // With a short record that is allocated as the code would do it.
    lemma!(bounded_growth, {
        let mut p: Position = kani::bounded_any::<Position, 2>();
        let mv: Move = kani::any();
        kani::assume(spec::make_move_pre(p.inner(), mv));
        let n = p.moves().len();
        let i: usize = kani::any();
        kani::assume(i < n || n == 0);
        let before = if n == 0 { None } else { Some(p.moves()[i]) };
        let ok = p.make_move(mv).is_some();
        assert!(p.moves().len() == n + ok as usize, "a successful move, and no other, is recorded");
        if let Some(before) = before {
            assert!(spec::same_move(p.moves()[i], before), "the moves before are kept");
        }
        if ok {
            assert!(spec::same_move(p.moves()[n], mv), "the move is recorded at the end");
        }
        core::mem::forget(p);
    });
}

pub mod light {
    use super::*;

    // The C form of a move, on a position with history. (The record is above.)
    lemma!(make_compact_move, {
        let mut p = any_position();
        let packed: CompactMove = kani::any();
        let mv = spec::move_of(packed);
        kani::assume(spec::make_move_pre(p.inner(), mv));
        let old = spec::snapshot(p.inner());
        let ok = p.make_compact_move(packed);
        match spec::effect(&old, mv) {
            Some(e) => {
                assert!(ok, "a packed move that makes sense succeeds");
                assert!(spec::moved_board(&old, p.inner(), &e), "the board after a packed move");
            }
            None => {
                assert!(!ok, "a packed move that makes no sense fails");
                assert!(spec::same_position(&old, p.inner()), "a packed move that fails changes nothing");
            }
        }
        core::mem::forget(p);
    });

    lemma!(arbitrary_position, {
        let p: PartialPosition = kani::any();
        let old = spec::snapshot(&p);
        let pos = Position::arbitrary_position(p);
        assert!(spec::same_position(&old, pos.inner()), "the current position is the given one");
        assert!(spec::same_position(&old, pos.initial_position()), "the initial position is the given one");
        assert!(pos.moves().is_empty(), "the record is empty");
        core::mem::forget(pos);
    });

    lemma!(startpos, {
        let pos = if kani::any() { Position::startpos() } else { Position::default() };
        assert!(spec::pos_startpos(pos.inner()), "the current position is the starting position");
        assert!(spec::pos_startpos(pos.initial_position()), "the initial position is the starting position");
        assert!(pos.moves().is_empty(), "the record is empty");
        core::mem::forget(pos);
    });

    lemma!(startpos_c, {
        let pos = Position::Position_startpos();
        {
            let pos = unsafe { &*pos };
            assert!(spec::pos_startpos(pos.inner()), "the current position is the starting position");
            assert!(spec::pos_startpos(pos.initial_position()), "the initial position is the starting position");
            assert!(pos.moves().is_empty(), "the record is empty");
        }
        unsafe { Position::Position_destruct(pos) };
    });

    lemma!(questions, {
        let pos = any_position();
        let (s, c, piece): (Square, Color, Piece) = (kani::any(), kani::any(), kani::any());
        let p = pos.inner();
        assert!(pos.side_to_move() == p.side_to_move(), "side_to_move");
        assert!(spec::hand_same(pos.hand_of_a_player(c), p.hand_of_a_player(c)), "hand_of_a_player");
        assert!(pos.hand(piece) == p.hand(piece), "hand");
        assert!(pos.ply() == p.ply(), "ply");
        assert!(spec::opt8(pos.piece_at(s)) == spec::at(p, s), "piece_at");
        assert!(spec::raw8(pos.Position_piece_at(s)) == spec::at(p, s), "Position_piece_at");
        assert!(spec::rep(pos.occupied_bitboard()) == spec::rep(p.occupied_bitboard()), "occupied_bitboard");
        assert!(spec::rep(pos.vacant_bitboard()) == spec::rep(p.vacant_bitboard()), "vacant_bitboard");
        assert!(spec::rep(pos.player_bitboard(c)) == spec::rep(p.player_bitboard(c)), "player_bitboard");
        assert!(spec::rep(pos.piece_bitboard(piece)) == spec::rep(p.piece_bitboard(piece)), "piece_bitboard");
        assert!(spec::same_opt_move(pos.last_move(), p.last_move()), "last_move");
        assert!(pos.last_compact_move() == p.last_compact_move(), "last_compact_move");
        assert!(spec::raw16(pos.Position_last_compact_move()) == spec::last_code(p), "Position_last_compact_move");
        core::mem::forget(pos);
    });

    // The deprecated ways to edit a position with history edit the current position only.
    lemma!(piece_set, {
        let mut pos = any_position();
        let (s, piece): (Square, Option<Piece>) = (kani::any(), kani::any());
        kani::assume(spec::piece_set_pre(pos.inner(), s));
        let (old, initial, n) = (spec::snapshot(pos.inner()), spec::snapshot(pos.initial_position()), pos.moves().len());
        pos.piece_set(s, piece);
        assert!(spec::piece_set_post(&old, pos.inner(), s, piece), "the current position is edited");
        assert!(spec::same_position(&initial, pos.initial_position()), "the initial position is kept");
        assert!(pos.moves().len() == n, "the record is kept");
        core::mem::forget(pos);
    });

    lemma!(hand_of_a_player_mut, {
        let mut pos = any_position();
        let (c, h): (Color, Hand) = (kani::any(), kani::any());
        let (old, initial, n) = (spec::snapshot(pos.inner()), spec::snapshot(pos.initial_position()), pos.moves().len());
        *pos.hand_of_a_player_mut(c) = h;
        let (s, v, mut w) = (spec::probe(), spec::view(&old), spec::view(pos.inner()));
        assert!(spec::hand_same(pos.hand_of_a_player(c), h), "the hand is what was written");
        w.hand[spec::ci(c)] = v.hand[spec::ci(c)];
        assert!(spec::at(&old, s) == spec::at(pos.inner(), s) && spec::same_views(&v, &w), "nothing else is written");
        assert!(spec::same_position(&initial, pos.initial_position()), "the initial position is kept");
        assert!(pos.moves().len() == n, "the record is kept");
        core::mem::forget(pos);
    });
}
