//! C19: functions neither panic nor misbehave, for any valid arguments.
//!
//! Nothing is asserted about results but that they are valid values: the obligations are those that
//! the verifier generates in the code under test (panics, overflow, pointers, indices, division).
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

/// Whether a value that came back is a valid one.
trait Valid {
    fn check(self);
}

macro_rules! valid {
    ($($ty:ty as $raw:ty, |$x:ident| $ok:expr;)*) => {
        $(impl Valid for $ty {
            fn check(self) {
                let $x: $raw = unsafe { core::mem::transmute(self) };
                assert!($ok, concat!("a valid ", stringify!($ty)));
            }
        })*
    };
}

valid! {
    Color as u8, |x| 1 <= x && x <= 2;
    Square as u8, |x| 1 <= x && x <= 81;
    OptionSquare as u8, |x| x <= 81;
    PieceKind as u8, |x| 1 <= x && x <= 14;
    OptionPieceKind as u8, |x| x <= 14;
    Piece as u8, |x| spec::piece_code_ok(x);
    OptionPiece as u8, |x| x == 0 || spec::piece_code_ok(x);
    CompactMove as u16, |x| spec::compact_code_ok(x);
    OptionCompactMove as u16, |x| x == 0 || spec::compact_code_ok(x);
    GameResolution as u8, |x| 1 <= x && x <= 5;
    OptionGameResolution as u8, |x| x <= 5;
    Bitboard as u128, |x| spec::rep_ok(x);
    ByteSwappedBitboard as u128, |x| spec::rep_ok(x.swap_bytes());
    bool as u8, |x| x <= 1;
}

impl<T: Valid> Valid for Option<T> {
    fn check(self) {
        if let Some(x) = self {
            x.check();
        }
    }
}

impl<A: Valid, B: Valid> Valid for (A, B) {
    fn check(self) {
        self.0.check();
        self.1.check();
    }
}

/// A value that no bit pattern makes invalid.
macro_rules! any_bits {
    ($($ty:ty),*) => {
        $(impl Valid for $ty {
            fn check(self) {}
        })*
    };
}

any_bits!((), u8, u16, u128, usize, Hand, core::cmp::Ordering, core::fmt::Result);

macro_rules! calls {
    ($name:ident, |$($arg:ident : $ty:ty),*| $($call:expr;)*) => {
        lemma!($name, {
            $(#[allow(unused_mut)] let mut $arg: $ty = kani::any();)*
            $(Valid::check($call);)*
        });
    };
}

/// Takes all bytes of a hash.
struct Sum(u64);

impl core::hash::Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0 ^= bytes.len() as u64;
    }
}

fn hash<T: core::hash::Hash>(a: T) {
    a.hash(&mut Sum(0));
}

/// A sink that accepts everything, or fails at any time.
struct Sink;

impl core::fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> core::fmt::Result {
        if kani::any() {
            Ok(())
        } else {
            Err(core::fmt::Error)
        }
    }
}

pub mod light {
    use super::*;

    calls!(color, |a: Color, b: Color|
        a.flip(); a.array_index(); Color::all()[a.array_index()]; a.cmp(&b); a == b; hash(a); a.to_usi(&mut Sink););

    calls!(square, |a: Square, b: Square, c: Color, x: u8, y: u8, dx: i8, dy: i8|
        Square::new(x, y); Square::Square_new(x, y); Square::new_relative(x, y, c); Square::Square_new_relative(x, y, c);
        a.file(); a.rank(); a.index(); a.relative_rank(c); a.relative_file(c); a.flip(); Square::from_u8(x);
        a.shift(dx, dy); a.array_index(); a.cmp(&b); a == b; hash(a););
    calls!(square_usi, |a: Square| a.to_usi(&mut Sink););
    calls!(square_unchecked, |x: u8|
        { kani::assume(1 <= x && x <= 81); unsafe { Square::from_u8_unchecked(x) } };
        unsafe { Square::Square_from_u8_unchecked(x) };);
    calls!(option_square, |a: OptionSquare, b: OptionSquare, c: Option<Square>|
        Option::<Square>::from(a); OptionSquare::from(c); a.cmp(&b); a == b; hash(a););

    calls!(piece_kind, |a: PieceKind, b: PieceKind, x: u8|
        a.promote(); a.unpromote(); PieceKind::from_u8(x); PieceKind::PieceKind_from_u8(x); a.PieceKind_promote(); a.PieceKind_unpromote();
        a.array_index(); PieceKind::option_array_index(Some(a)); PieceKind::option_array_index(None); PieceKind::all()[a.array_index()];
        a.cmp(&b); a == b; hash(a); Hand::is_hand_piece(a); Hand::Hand_is_hand_piece(a););
    calls!(piece_kind_usi, |a: PieceKind| a.to_usi(&mut Sink););
    calls!(piece_kind_unchecked, |x: u8|
        { kani::assume(1 <= x && x <= 14); unsafe { PieceKind::from_u8_unchecked(x) } };
        unsafe { PieceKind::PieceKind_from_u8_unchecked(x) };);
    calls!(option_piece_kind, |a: OptionPieceKind, b: Option<PieceKind>|
        Option::<PieceKind>::from(a); OptionPieceKind::from(b););

    calls!(piece, |a: Piece, b: Piece, k: PieceKind, c: Color|
        Piece::new(k, c); Piece::Piece_new(k, c); a.to_parts(); a.piece_kind(); a.color(); a.as_u8(); a.promote(); a.Piece_promote();
        a.unpromote(); a.Piece_unpromote(); a.array_index(); Piece::all()[27]; a.cmp(&b); a == b; hash(a););
    calls!(piece_usi, |a: Piece| a.to_usi(&mut Sink););
    calls!(option_piece, |a: OptionPiece, b: OptionPiece, c: Option<Piece>|
        Option::<Piece>::from(a); OptionPiece::from(c); a.cmp(&b); a == b; hash(a););

    calls!(hand, |a: Hand, b: Hand, k: PieceKind|
        Hand::new(); a.added(k); a.removed(k); a.count(k); a.Hand_count(k); a.Hand_add(k); a.Hand_remove(k); a == b; a.cmp(&b); hash(a););
    // Sequences of changes: the second starts from whatever the first left.
    calls!(hand_sequence, |a: Hand, k: PieceKind, l: PieceKind|
        a.Hand_add(k); a.Hand_remove(l); a.Hand_add(l); a.count(k); a.count(l););

    calls!(moves, |a: Move, b: Move, s: Square, t: Square, p: Piece, promote: bool|
        a.from(); a.to(); a.is_promoting(); a.is_drop(); a == b; a.cmp(&b); a.partial_cmp(&b); hash(a); <CompactMove as From<Move>>::from(a);
        CompactMove::normal(s, t, promote); CompactMove::drop(p, t););
    calls!(move_usi, |a: Move| a.to_usi(&mut Sink););
    calls!(compact_move, |a: CompactMove, b: CompactMove|
        a.from(); a.CompactMove_from(); a.to(); a.is_promoting(); a.is_drop(); a == b; a.cmp(&b); hash(a); <Move as From<CompactMove>>::from(a).to(););
    calls!(compact_move_usi, |a: CompactMove| a.to_usi(&mut Sink););
    calls!(option_compact_move, |a: OptionCompactMove, b: OptionCompactMove, c: Option<CompactMove>|
        Option::<CompactMove>::from(a); OptionCompactMove::from(c); a == b; a.cmp(&b); hash(a););

    calls!(bitboard, |a: Bitboard, b: Bitboard, s: Square|
        Bitboard::empty(); Bitboard::Bitboard_empty(); Bitboard::single(s); Bitboard::Bitboard_single(s); a.count(); a.is_empty();
        a.contains(s); a.flip(); a.to_u128(); a.or(b); a.and(b); a.xor(b); a.andnot(b); a.swap_bytes();
        a & b; a | b; a ^ b; !a; &a & &b; &a | &b; &a ^ &b; !&a; a == b; hash(a); a.size_hint().0; Ord::cmp(&a, &b);
        Bitboard::Bitboard_bitand(a, b); Bitboard::Bitboard_bitor(a, b); Bitboard::Bitboard_bitxor(a, b););
    calls!(bitboard_assign, |a: Bitboard, b: Bitboard, c: Bitboard, d: Bitboard, s: Square|
        { a &= b; a }; { a |= b; a }; { a ^= b; a }; { b &= s; b }; { c |= s; c }; { d ^= s; d };
        { Bitboard::Bitboard_bitand_assign(&mut a, b); a }; { Bitboard::Bitboard_bitor_assign(&mut b, c); b };
        { Bitboard::Bitboard_bitxor_assign(&mut c, d); c };);
    calls!(bitboard_pop, |a: Bitboard, b: Bitboard| a.pop(); a; b.Bitboard_pop(); b; a.next(); a;);
    calls!(bitboard_unchecked, |a: Bitboard, delta: u8, file: u8, pattern: u16|
        unsafe { Bitboard::from_u128_unchecked(a.to_u128()) };
        { kani::assume(delta <= 9); unsafe { a.shift_down(delta) } }; unsafe { a.shift_up(delta) };
        unsafe { a.shift_left(delta) }; unsafe { a.shift_right(delta) };
        { kani::assume(1 <= file && file <= 9 && pattern < 512); unsafe { Bitboard::from_file_unchecked(file, pattern) } };
        unsafe { a.get_file_unchecked(file) };);
    calls!(swapped, |a: ByteSwappedBitboard, b: ByteSwappedBitboard|
        a.to_u128(); unsafe { ByteSwappedBitboard::from_u128_unchecked(a.to_u128()) }; a.or(b); a.and(b); a.xor(b); a.andnot(b);
        a.swap_bytes(); a == b; a.cmp(&b); hash(a););

    calls!(resolution, |a: GameResolution, b: GameResolution, x: u8, c: OptionGameResolution, d: Option<GameResolution>|
        a == b; a.cmp(&b); hash(a); Option::<GameResolution>::from(c); OptionGameResolution::from(d);
        { kani::assume(1 <= x && x <= 5); unsafe { GameResolution::from_u8_unchecked(x) } };);
}

pub mod position {
    use super::*;

    // Any values in the fields: the views need not agree.
    calls!(questions, |p: PartialPosition, c: Color, s: Square, piece: Piece, k: PieceKind|
        p.side_to_move(); p.hand_of_a_player(c); p.hand(piece); p.ply(); p.piece_at(s); p.PartialPosition_piece_at(s);
        p.occupied_bitboard(); p.vacant_bitboard(); p.player_bitboard(c); p.piece_bitboard(piece); p.piece_kind_bitboard(k);
        p.last_compact_move(); p.PartialPosition_last_compact_move(); p.king_position(c););
    lemma!(last_move, {
        let p: PartialPosition = kani::any();
        if let Some(mv) = p.last_move() {
            mv.to().check();
            mv.from().check();
        }
    });
    calls!(constructors, |s: Square| PartialPosition::empty().piece_at(s); PartialPosition::startpos().piece_at(s););
    calls!(setters, |p: PartialPosition, c: Color, h: Hand, ply: u16|
        p.side_to_move_set(c); p.ply_set(ply); { *p.hand_of_a_player_mut(c) = h };);
    lemma!(piece_set, {
        let mut p: PartialPosition = kani::any();
        let (s, piece): (Square, Option<Piece>) = (kani::any(), kani::any());
        p.piece_set(s, piece);
    });
    lemma!(make_move, {
        let mut p: PartialPosition = kani::any();
        let mv: Move = kani::any();
        let _ = p.make_move(mv);
    });
    lemma!(make_compact_move, {
        let mut p: PartialPosition = kani::any();
        let mv: CompactMove = kani::any();
        let _ = p.make_compact_move(mv);
    });
}

pub mod history {
    use super::*;

    lemma!(questions, {
        let mut p = Position::arbitrary_position(kani::any());
        let (c, s, piece, k): (Color, Square, Piece, PieceKind) = kani::any();
        p.side_to_move().check();
        p.hand_of_a_player(c).check();
        p.hand(piece).check();
        p.ply().check();
        p.piece_at(s).check();
        p.Position_piece_at(s).check();
        p.occupied_bitboard().check();
        p.vacant_bitboard().check();
        p.player_bitboard(c).check();
        p.piece_bitboard(piece).check();
        p.last_compact_move().check();
        p.Position_last_compact_move().check();
        p.initial_position().piece_at(s).check();
        p.inner().piece_at(s).check();
        assert!(p.moves().is_empty());
        *p.hand_of_a_player_mut(c) = kani::any();
    });
    lemma!(make_move, {
        let mut p = Position::arbitrary_position(kani::any());
        let ok = p.make_move(kani::any());
        if let (Some(mv), 1) = (p.moves().last(), p.moves().len()) {
            mv.to().check();
        }
        ok.check();
    });
}
