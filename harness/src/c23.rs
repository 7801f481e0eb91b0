//! C23: every C function does what its Rust counterpart does.
//!
//! Where a C function is the Rust function (exported under another name), it is compared with the
//! specification.
use core::mem::MaybeUninit;
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

fn code<T>(x: Option<T>) -> u8
where
    Option<T>: Copy,
{
    spec::raw8(x)
}

pub mod light {
    use super::*;

    lemma!(square, {
        let (a, b, c): (u8, u8, Color) = (kani::any(), kani::any(), kani::any());
        assert!(spec::raw8(Square::Square_new(a, b)) == code(Square::new(a, b)), "Square_new");
        assert!(spec::square_new_c(a, b, Square::Square_new(a, b)), "Square_new, as specified");
        assert!(spec::raw8(Square::Square_new_relative(a, b, c)) == code(Square::new_relative(a, b, c)), "Square_new_relative");
        assert!(spec::square_new_relative_c(a, b, c, Square::Square_new_relative(a, b, c)), "Square_new_relative, as specified");
        assert!(spec::square_from_u8(a, Square::from_u8(a)), "Square_from_u8");
        let s: Square = kani::any();
        assert!(spec::square_from_u8_unchecked(s.index(), unsafe { Square::Square_from_u8_unchecked(s.index()) }), "Square_from_u8_unchecked");
        assert!(spec::square_file(s, s.file()), "Square_file");
        assert!(spec::square_rank(s, s.rank()), "Square_rank");
        assert!(spec::square_index(s, s.index()), "Square_index");
        assert!(spec::square_relative_file(s, c, s.relative_file(c)), "Square_relative_file");
        assert!(spec::square_relative_rank(s, c, s.relative_rank(c)), "Square_relative_rank");
        assert!(spec::square_flip(s, s.flip()), "Square_flip");
        let (x, y): (i8, i8) = (kani::any(), kani::any());
        assert!(spec::square_shift(s, x, y, s.shift(x, y)), "Square_shift");
    });

    lemma!(color, {
        let c: Color = kani::any();
        assert!(spec::color_flip(c, c.flip()), "Color_flip");
    });

    lemma!(piece, {
        let (k, c): (PieceKind, Color) = (kani::any(), kani::any());
        assert!(spec::same8(Piece::Piece_new(k, c), Piece::new(k, c)), "Piece_new");
        assert!(spec::piece_new(k, c, Piece::Piece_new(k, c)), "Piece_new, as specified");
        let p: Piece = kani::any();
        assert!(spec::piece_kind(p, p.piece_kind()), "Piece_piece_kind");
        assert!(spec::piece_color(p, p.color()), "Piece_color");
        assert!(spec::raw8(p.Piece_promote()) == spec::opt8(p.promote()), "Piece_promote");
        assert!(spec::raw8(p.Piece_unpromote()) == spec::opt8(p.unpromote()), "Piece_unpromote");
        assert!(spec::piece_promote_c(p, p.Piece_promote()), "Piece_promote, as specified");
        assert!(spec::piece_unpromote_c(p, p.Piece_unpromote()), "Piece_unpromote, as specified");
    });

    lemma!(piece_kind, {
        let (k, x): (PieceKind, u8) = (kani::any(), kani::any());
        assert!(spec::okind8(&k.PieceKind_promote()) == spec::opt8(k.promote()), "PieceKind_promote");
        assert!(spec::okind8(&k.PieceKind_unpromote()) == spec::opt8(k.unpromote()), "PieceKind_unpromote");
        assert!(spec::okind8(&PieceKind::PieceKind_from_u8(x)) == spec::opt8(PieceKind::from_u8(x)), "PieceKind_from_u8");
        assert!(spec::kind_promote_c(k, &k.PieceKind_promote()), "PieceKind_promote, as specified");
        assert!(spec::kind_unpromote_c(k, &k.PieceKind_unpromote()), "PieceKind_unpromote, as specified");
        assert!(spec::kind_from_u8_c(x, &PieceKind::PieceKind_from_u8(x)), "PieceKind_from_u8, as specified");
        assert!(spec::raw8(unsafe { PieceKind::PieceKind_from_u8_unchecked(k as u8) }) == k as u8, "PieceKind_from_u8_unchecked");
    });

    lemma!(resolutions, {
        let (r, i): (GameResolution, IllegalMoveKind) = (kani::any(), kani::any());
        assert!(spec::same8(unsafe { GameResolution::from_u8_unchecked(r as u8) }, r), "GameResolution_from_u8_unchecked");
        assert!(spec::same8(unsafe { IllegalMoveKind::from_u8_unchecked(i as u8) }, i), "IllegalMoveKind_from_u8_unchecked");
    });

    lemma!(hand, {
        let (h, k): (Hand, PieceKind) = (kani::any(), kani::any());
        assert!(spec::hand_new(Hand::new()), "Hand_new");
        kani::assume(spec::raw8(k) > 7 || spec::hand_at(h, spec::raw8(k)) < 255);
        let mut a = h;
        let ok = a.Hand_add(k);
        assert!(ok == h.added(k).is_some() && spec::hand_same(a, h.added(k).unwrap_or(h)), "Hand_add");
        assert!(spec::hand_add_c(h, a, k, ok), "Hand_add, as specified");
        let mut r = h;
        let ok = r.Hand_remove(k);
        assert!(ok == h.removed(k).is_some() && spec::hand_same(r, h.removed(k).unwrap_or(h)), "Hand_remove");
        assert!(spec::hand_remove_c(h, r, k, ok), "Hand_remove, as specified");
        assert!(h.Hand_count(k) == h.count(k).unwrap_or(0), "Hand_count");
        assert!(spec::hand_count_c(h, k, h.Hand_count(k)), "Hand_count, as specified");
        assert!(Hand::Hand_is_hand_piece(k) == Hand::is_hand_piece(k), "Hand_is_hand_piece");
        assert!(spec::hand_is_hand_piece(k, Hand::Hand_is_hand_piece(k)), "Hand_is_hand_piece, as specified");
    });

    lemma!(mv, {
        let (from, to, promote, piece): (Square, Square, bool, Piece) = (kani::any(), kani::any(), kani::any(), kani::any());
        assert!(spec::compact_normal(from, to, promote, CompactMove::normal(from, to, promote)), "CompactMove_normal");
        assert!(spec::compact_drop(piece, to, CompactMove::drop(piece, to)), "CompactMove_drop");
        let m: CompactMove = kani::any();
        assert!(spec::raw8(m.CompactMove_from()) == spec::opt8(m.from()), "CompactMove_from");
        assert!(spec::compact_from_c(m, m.CompactMove_from()), "CompactMove_from, as specified");
        assert!(spec::compact_to(m, m.to()), "CompactMove_to");
        assert!(spec::compact_is_promoting(m, m.is_promoting()), "CompactMove_is_promoting");
        assert!(spec::compact_is_drop(m, m.is_drop()), "CompactMove_is_drop");
    });

    lemma!(bitboard, {
        let (a, b, s): (Bitboard, Bitboard, Square) = (kani::any(), kani::any(), kani::any());
        assert!(spec::bb_empty(Bitboard::Bitboard_empty()), "Bitboard_empty");
        assert!(spec::bb_single(s, Bitboard::Bitboard_single(s)), "Bitboard_single");
        assert!(spec::bb_count(a, a.count()), "Bitboard_count");
        assert!(spec::bb_is_empty(a, a.is_empty()), "Bitboard_is_empty");
        assert!(spec::bb_contains(a, s, a.contains(s)), "Bitboard_contains");
        assert!(spec::bb_flip(a, a.flip()), "Bitboard_flip");
        let same = |x: Bitboard, y: Bitboard| spec::rep(x) == spec::rep(y);
        assert!(same(Bitboard::Bitboard_bitand(a, b), a & b) && spec::bb_and(a, b, a & b), "Bitboard_bitand");
        assert!(same(Bitboard::Bitboard_bitor(a, b), a | b) && spec::bb_or(a, b, a | b), "Bitboard_bitor");
        assert!(same(Bitboard::Bitboard_bitxor(a, b), a ^ b) && spec::bb_xor(a, b, a ^ b), "Bitboard_bitxor");
        assert!(spec::bb_not(a, !a), "Bitboard_not");
        let mut x = a;
        Bitboard::Bitboard_bitand_assign(&mut x, b);
        assert!(same(x, a & b), "Bitboard_bitand_assign");
        let mut x = a;
        Bitboard::Bitboard_bitor_assign(&mut x, b);
        assert!(same(x, a | b), "Bitboard_bitor_assign");
        let mut x = a;
        Bitboard::Bitboard_bitxor_assign(&mut x, b);
        assert!(same(x, a ^ b), "Bitboard_bitxor_assign");
    });

    // This one has no path by which it could be called: the verifier puts it in the place of the
    // function here.
    extern "C" fn bitboard_not(_: Bitboard) -> Bitboard {
        kani::assume(false);
        Bitboard::empty()
    }

    lemma!(#[kani::stub(bitboard_not, shogi_core::bitboard::Bitboard_not)] bitboard_complement, {
        let a: Bitboard = kani::any();
        assert!(spec::bb_not(a, bitboard_not(a)), "Bitboard_not");
    });

    lemma!(bitboard_pop, {
        let a: Bitboard = kani::any();
        let (mut x, mut y) = (a, a);
        let r = x.Bitboard_pop();
        let s = y.pop();
        assert!(spec::raw8(r) == spec::opt8(s) && spec::rep(x) == spec::rep(y), "Bitboard_pop");
        assert!(spec::bb_pop_c(a, x, r), "Bitboard_pop, as specified");
    });
}

pub mod heavy {
    use super::*;

    lemma!(position_startpos, {
        let mut p: MaybeUninit<PartialPosition> = MaybeUninit::uninit();
        PartialPosition::PartialPosition_startpos(&mut p);
        let p = unsafe { p.assume_init() };
        assert!(spec::pos_startpos(&p), "PartialPosition_startpos, as specified");
        assert!(spec::same_position(&p, &PartialPosition::startpos()), "PartialPosition_startpos");
    });

    lemma!(position_questions, {
        let p: PartialPosition = kani::any();
        let (s, c, piece, kind): (Square, Color, Piece, PieceKind) = (kani::any(), kani::any(), kani::any(), kani::any());
        let v = spec::view(&p);
        assert!(spec::raw8(p.PartialPosition_piece_at(s)) == spec::opt8(p.piece_at(s)), "PartialPosition_piece_at");
        assert!(spec::raw16(p.PartialPosition_last_compact_move()) == match p.last_compact_move() {
            Some(m) => spec::raw16(m),
            None => 0,
        }, "PartialPosition_last_compact_move");
        assert!(spec::pos_occupied(&p, p.occupied_bitboard()), "PartialPosition_occupied_bitboard");
        assert!(spec::pos_vacant(&p, p.vacant_bitboard()), "PartialPosition_vacant_bitboard");
        assert!(spec::pos_piece_bitboard(&p, piece, p.piece_bitboard(piece)), "PartialPosition_piece_bitboard");
    });

    make_move_clause!(compact compact_success, "PartialPosition_make_compact_move succeeds exactly if the move makes sense",
        |old, new, mv, ok, effect| ok == effect.is_some());
    make_move_clause!(compact compact_failure, "PartialPosition_make_compact_move changes nothing if it fails",
        |old, new, mv, ok, effect| ok || spec::same_position(&old, &new));
    make_move_clause!(compact compact_board, "PartialPosition_make_compact_move: the board",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => spec::moved_board(&old, &new, &e),
            _ => true,
        });
    make_move_clause!(compact compact_bitboards, "PartialPosition_make_compact_move: the bitboards",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => spec::moved_bitboards(&old, &new, &e),
            _ => true,
        });
    make_move_clause!(compact compact_hands_and_state, "PartialPosition_make_compact_move: the hands, the turn, the ply and the last move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => {
                let (v, w) = (spec::view(&old), spec::view(&new));
                spec::moved_hands(&v, &w, &e) && spec::moved_state(&v, &w, mv)
            }
            _ => true,
        });

    macro_rules! history {
        ($name:ident, $text:literal, |$old:ident, $new:ident, $mv:ident, $ok:ident, $effect:ident| $post:expr) => {
            lemma!($name, {
                let packed: CompactMove = kani::any();
                let $mv = spec::move_of(packed);
                let p: PartialPosition = kani::any();
                kani::assume(spec::make_move_pre(&p, $mv));
                let $old = spec::snapshot(&p);
                let $effect = spec::effect(&$old, $mv);
                let mut $new = Position::arbitrary_position(p);
                let $ok = $new.make_compact_move(packed);
                assert!($post, $text);
                core::mem::forget($new);
            });
        };
    }

    history!(history_board, "Position_make_compact_move: success, the board",
        |old, new, mv, ok, effect| match effect {
            Some(e) => ok && spec::moved_board(&old, new.inner(), &e),
            None => !ok && spec::same_position(&old, new.inner()),
        });
    history!(history_record, "Position_make_compact_move: the record, the initial position",
        |old, new, mv, ok, effect| spec::same_position(&old, new.initial_position())
            && new.moves().len() == effect.is_some() as usize
            && (effect.is_none() || spec::same_move(new.moves()[0], mv)));
    history!(history_hands_and_state, "Position_make_compact_move: the hands, the turn, the ply and the last move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => {
                let (v, w) = (spec::view(&old), spec::view(new.inner()));
                spec::moved_hands(&v, &w, &e) && spec::moved_state(&v, &w, mv)
            }
            _ => true,
        });

    // Position_startpos, its destruction, and the questions of Position.
    lemma!(history_startpos, {
        let pos = Position::Position_startpos();
        let q = Position::startpos();
        {
            let p = unsafe { &*pos };
            assert!(spec::pos_startpos(p.inner()) && spec::pos_startpos(p.initial_position()), "Position_startpos, as specified");
            assert!(spec::same_position(p.inner(), q.inner()) && p.moves().is_empty() && q.moves().is_empty(), "Position_startpos");
        }
        unsafe { Position::Position_destruct(pos) };
        core::mem::forget(q);
    });

    lemma!(bounded_history_questions, {
        let pos: Position = kani::bounded_any::<Position, 1>();
        let (s, c, piece): (Square, Color, Piece) = (kani::any(), kani::any(), kani::any());
        let p = pos.inner();
        assert!(pos.side_to_move() == p.side_to_move(), "Position_side_to_move");
        assert!(spec::hand_same(pos.hand_of_a_player(c), p.hand_of_a_player(c)), "Position_hand_of_a_player");
        assert!(pos.ply() == p.ply(), "Position_ply");
        assert!(spec::raw8(pos.Position_piece_at(s)) == spec::opt8(pos.piece_at(s)), "Position_piece_at");
        assert!(spec::raw8(pos.Position_piece_at(s)) == spec::at(p, s), "Position_piece_at, as specified");
        assert!(spec::rep(pos.occupied_bitboard()) == spec::rep(p.occupied_bitboard()), "Position_occupied_bitboard");
        assert!(spec::rep(pos.vacant_bitboard()) == spec::rep(p.vacant_bitboard()), "Position_vacant_bitboard");
        assert!(spec::rep(pos.player_bitboard(c)) == spec::rep(p.player_bitboard(c)), "Position_player_bitboard");
        assert!(spec::rep(pos.piece_bitboard(piece)) == spec::rep(p.piece_bitboard(piece)), "Position_piece_bitboard");
        let code = |m: Option<CompactMove>| match m {
            Some(m) => spec::raw16(m),
            None => 0,
        };
        assert!(spec::raw16(pos.Position_last_compact_move()) == code(pos.last_compact_move()), "Position_last_compact_move");
        assert!(spec::raw16(pos.Position_last_compact_move()) == spec::last_code(p), "Position_last_compact_move, as specified");
        core::mem::forget(pos);
    });

    lemma!(partial_game, {
        let mut g: PartialGame = kani::any();
        let r: GameResolution = kani::any();
        assert!(spec::raw8(g.PartialGame_resolution()) == spec::opt8(g.resolution()), "PartialGame_resolution");
        g.resolve(r);
        assert!(spec::raw8(g.PartialGame_resolution()) == spec::raw8(r), "PartialGame_resolve");
        g.unresolve();
        assert!(spec::raw8(g.PartialGame_resolution()) == 0, "PartialGame_unresolve");
    });

    lemma!(game, {
        let mut g = Game::default();
        let r: GameResolution = kani::any();
        assert!(spec::raw8(g.Game_resolution()) == 0, "Game_resolution");
        g.resolve(r);
        assert!(spec::raw8(g.Game_resolution()) == spec::raw8(r) && spec::opt8(g.resolution()) == spec::raw8(r), "Game_resolve");
        g.unresolve();
        assert!(spec::raw8(g.Game_resolution()) == 0 && g.resolution().is_none(), "Game_unresolve");
        core::mem::forget(g);
    });

    /// The SFEN text of the C functions is that of the Rust function (which writes an arbitrary
    /// text here): see C15, of which this is one case.
    const LEN: usize = 3;
    static mut TEXT: [u8; LEN] = [0; LEN];
    static mut CALLS: u8 = 0;

    fn to_sfen<W: core::fmt::Write>(_: &PartialPosition, sink: &mut W) -> core::fmt::Result {
        unsafe {
            CALLS += 1;
            sink.write_str(core::str::from_utf8_unchecked(&*core::ptr::slice_from_raw_parts(&raw const TEXT as *const u8, LEN)))
        }
    }

    lemma!(#[kani::stub(shogi_core::PartialPosition::to_sfen, to_sfen)] bounded_to_sfen_c, {
        let p = Position::arbitrary_position(PartialPosition::empty());
        let mut memory: [u8; LEN + 2] = kani::any();
        let last = memory[LEN + 1];
        unsafe {
            TEXT = kani::any();
            if kani::any() {
                p.to_sfen_c(memory.as_mut_ptr());
            } else {
                p.inner().to_sfen_c(memory.as_mut_ptr());
            }
            if CALLS != 0 {
                let mut i = 0;
                while i < LEN {
                    assert!(memory[i] == TEXT[i], "the text");
                    i += 1;
                }
                assert!(memory[LEN] == 0 && memory[LEN + 1] == last, "one zero byte after it");
            }
        }
        core::mem::forget(p);
    });
}
