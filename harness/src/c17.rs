//! C17: equality, ordering and hashing agree with each other.
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

/// Records how many bytes it is given, and one byte at an arbitrary place. Hashers that are given
/// the same bytes in the same order give the same hash.
struct Recorder {
    at: usize,
    len: usize,
    byte: u8,
}

impl Recorder {
    fn of<T: Hash>(at: usize, value: &T) -> (usize, u8) {
        let mut r = Recorder { at, len: 0, byte: 0 };
        value.hash(&mut r);
        (r.len, r.byte)
    }
    fn put<const N: usize>(&mut self, bytes: [u8; N]) {
        if self.at >= self.len && self.at - self.len < N {
            self.byte = bytes[self.at - self.len];
        }
        self.len += N;
    }
}

impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        self.len as u64
    }
    fn write(&mut self, bytes: &[u8]) {
        if self.at >= self.len && self.at - self.len < bytes.len() {
            self.byte = bytes[self.at - self.len];
        }
        self.len += bytes.len();
    }
    fn write_u8(&mut self, x: u8) {
        self.put([x]);
    }
    fn write_u16(&mut self, x: u16) {
        self.put(x.to_le_bytes());
    }
    fn write_u64(&mut self, x: u64) {
        self.put(x.to_le_bytes());
    }
    fn write_usize(&mut self, x: usize) {
        self.put(x.to_le_bytes());
    }
    fn write_isize(&mut self, x: isize) {
        self.put(x.to_le_bytes());
    }
}

fn agree<T: Ord + Hash + Clone>(a: &T, b: &T) {
    let same = a == b;
    let o = a.cmp(b);
    assert!((o == Ordering::Equal) == same, "the ordering says equal exactly if equality does");
    assert!(a.partial_cmp(b) == Some(o), "partial_cmp agrees with cmp");
    assert!(b.cmp(a) == o.reverse(), "the ordering is antisymmetric");
    assert!((a != b) == !same && (b == a) == same, "equality is symmetric");
    assert!((a < b) == (o == Ordering::Less), "< agrees with cmp");
    assert!((a <= b) == (o != Ordering::Greater), "<= agrees with cmp");
    assert!((a > b) == (o == Ordering::Greater), "> agrees with cmp");
    assert!((a >= b) == (o != Ordering::Less), ">= agrees with cmp");
    assert!(a.clone() == *a, "a copy equals the original");
    let at: usize = kani::any();
    if same {
        assert!(Recorder::of(at, a) == Recorder::of(at, b), "equal values are hashed alike");
    }
}

fn transitive<T: Ord>(a: &T, b: &T, c: &T) {
    if a <= b && b <= c {
        assert!(a <= c, "the ordering is transitive");
    }
    if a == b && b == c {
        assert!(a == c, "equality is transitive");
    }
}

macro_rules! coherent {
    ($name:ident, $ty:ty, |$a:ident, $b:ident| $same:expr) => {
        lemma!($name, {
            let ($a, $b, c): ($ty, $ty, $ty) = (kani::any(), kani::any(), kani::any());
            agree(&$a, &$b);
            transitive(&$a, &$b, &c);
            assert!(($a == $b) == $same, "values are equal exactly if they are the same");
        });
    };
}

pub mod light {
    use super::*;

    coherent!(color, Color, |a, b| spec::same8(a, b));
    coherent!(square, Square, |a, b| spec::same8(a, b));
    coherent!(option_square, OptionSquare, |a, b| spec::same8(a, b));
    coherent!(piece_kind, PieceKind, |a, b| spec::same8(a, b));
    coherent!(piece, Piece, |a, b| spec::same8(a, b));
    coherent!(option_piece, OptionPiece, |a, b| spec::same8(a, b));
    coherent!(game_resolution, GameResolution, |a, b| spec::same8(a, b));
    coherent!(option_game_resolution, OptionGameResolution, |a, b| spec::same8(a, b));
    coherent!(illegal_move_kind, IllegalMoveKind, |a, b| spec::same8(a, b));
    coherent!(result_illegal_move_kind, ResultUnitIllegalMoveKind, |a, b| spec::same8(a, b));
    coherent!(position_status, PositionStatus, |a, b| a as u8 == b as u8);
    coherent!(compact_move, CompactMove, |a, b| spec::same16(a, b));
    coherent!(option_compact_move, OptionCompactMove, |a, b| spec::same16(a, b));
    coherent!(mv, Move, |a, b| spec::same_move(a, b));
    coherent!(hand, Hand, |a, b| spec::hand_same(a, b));
    coherent!(bitboard, Bitboard, |a, b| spec::set(a) == spec::set(b));
    coherent!(byte_swapped_bitboard, ByteSwappedBitboard, |a, b| spec::brep(a) == spec::brep(b));
}

/// All views of a position agree, on every square.
fn consistent(p: &PartialPosition) -> bool {
    let v = spec::view(p);
    let mut ok = spec::well_formed(&v);
    let mut i = 1;
    while i <= 81 {
        let s = spec::sq(i);
        ok &= spec::shows(&v, s, spec::at(p, s));
        i += 1;
    }
    ok
}

fn same_on_every_square(p: &PartialPosition, q: &PartialPosition) -> bool {
    let mut ok = true;
    let mut i = 1;
    while i <= 81 {
        let s = spec::sq(i);
        ok &= spec::at(p, s) == spec::at(q, s);
        i += 1;
    }
    ok
}

pub mod heavy {
    use super::*;

    lemma!(position_eq_cmp, {
        let (p, q): (PartialPosition, PartialPosition) = (kani::any(), kani::any());
        kani::assume(consistent(&p) && consistent(&q));
        assert!((p.cmp(&q) == Ordering::Equal) == (p == q), "the ordering says equal exactly if equality does");
    });

    lemma!(position_cmp, {
        let (p, q): (PartialPosition, PartialPosition) = (kani::any(), kani::any());
        let o = p.cmp(&q);
        assert!(p.partial_cmp(&q) == Some(o), "partial_cmp agrees with cmp");
        assert!((p < q) == (o == Ordering::Less) && (p <= q) == (o != Ordering::Greater), "< and <= agree with cmp");
        assert!((p > q) == (o == Ordering::Greater) && (p >= q) == (o != Ordering::Less), "> and >= agree with cmp");
    });

    lemma!(position_antisymmetric, {
        let (p, q): (PartialPosition, PartialPosition) = (kani::any(), kani::any());
        assert!(q.cmp(&p) == p.cmp(&q).reverse(), "the ordering is antisymmetric");
    });

    lemma!(position_transitive, {
        let (p, q, r): (PartialPosition, PartialPosition, PartialPosition) = (kani::any(), kani::any(), kani::any());
        if p.cmp(&q) != Ordering::Greater && q.cmp(&r) != Ordering::Greater {
            assert!(p.cmp(&r) != Ordering::Greater, "the ordering is transitive");
        }
    });

    lemma!(position_eq, {
        let (p, q): (PartialPosition, PartialPosition) = (kani::any(), kani::any());
        let same = p == q;
        assert!((p != q) == !same && (q == p) == same, "equality is symmetric");
        if same {
            assert!(spec::same_position(&p, &q), "equal positions are the same to every observer");
        }
        if same_on_every_square(&p, &q) && spec::same_views(&spec::view(&p), &spec::view(&q)) {
            assert!(same, "positions that no observer tells apart are equal");
        }
    });

    lemma!(position_clone, {
        let p: PartialPosition = kani::any();
        let q = p.clone();
        assert!(spec::same_position(&p, &q), "a copy is the same to every observer");
        assert!(p == q, "a copy equals the original");
    });

    lemma!(position_hash, {
        let (p, q): (PartialPosition, PartialPosition) = (kani::any(), kani::any());
        let at: usize = kani::any();
        kani::assume(p == q);
        assert!(Recorder::of(at, &p) == Recorder::of(at, &q), "equal positions are hashed alike");
    });
}

pub mod games {
    use super::*;

    lemma!(partial_game, {
        let (g, h): (PartialGame, PartialGame) = (kani::any(), kani::any());
        kani::assume(consistent(g.position()) && consistent(h.position()));
        let same = g == h;
        assert!((g.cmp(&h) == Ordering::Equal) == same, "the ordering says equal exactly if equality does");
        assert!(same == (g.position() == h.position() && g.resolution() == h.resolution()), "games are equal if their positions and results are");
    });

    lemma!(partial_game_cmp, {
        let (g, h): (PartialGame, PartialGame) = (kani::any(), kani::any());
        let o = g.cmp(&h);
        assert!(g.partial_cmp(&h) == Some(o), "partial_cmp agrees with cmp");
        assert!(h.cmp(&g) == o.reverse(), "the ordering is antisymmetric");
    });

    lemma!(partial_game_hash, {
        let (g, h): (PartialGame, PartialGame) = (kani::any(), kani::any());
        let at: usize = kani::any();
        kani::assume(g == h);
        assert!(Recorder::of(at, &g) == Recorder::of(at, &h), "equal games are hashed alike");
        let c = g.clone();
        assert!(c == g, "a copy equals the original");
    });

    fn same_moves(p: &Position, q: &Position) -> bool {
        let (a, b) = (p.moves(), q.moves());
        a.len() == b.len()
            && (a.len() < 1 || spec::same_move(a[0], b[0]))
            && (a.len() < 2 || spec::same_move(a[1], b[1]))
    }

    lemma!(bounded_position_eq, {
        let p: Position = kani::bounded_any::<Position, 2>();
        let q: Position = kani::bounded_any::<Position, 2>();
        let same = p == q;
        assert!(same == (p.inner() == q.inner() && p.initial_position() == q.initial_position() && same_moves(&p, &q)),
            "positions with history are equal if their initial and current positions and records are");
        core::mem::forget((p, q));
    });

    lemma!(bounded_position_clone, {
        let p: Position = kani::bounded_any::<Position, 2>();
        let q = p.clone();
        assert!(spec::same_position(p.inner(), q.inner()) && spec::same_position(p.initial_position(), q.initial_position()), "a copy has the same positions");
        assert!(same_moves(&p, &q), "a copy has the same record");
        core::mem::forget((p, q));
    });

    lemma!(bounded_game, {
        let g: Game = kani::bounded_any::<Game, 1>();
        let h: Game = kani::bounded_any::<Game, 1>();
        assert!((g == h) == (g.position() == h.position() && g.resolution() == h.resolution()), "games are equal if their positions and results are");
        core::mem::forget((g, h));
    });

    // Positions with history whose record has at most one move (two for a game's).
    lemma!(#[kani::unwind(83)] bounded_position_cmp, {
        let (p, q) = (bounded_small::<2>(), bounded_small::<2>());
        let o = p.cmp(&q);
        assert!((o == Ordering::Equal) == (p == q), "the ordering says equal exactly if equality does");
        core::mem::forget((p, q));
    });
    lemma!(#[kani::unwind(83)] bounded_position_hash, {
        let (p, q) = (small(), small());
        let at: usize = kani::any();
        if p == q {
            assert!(Recorder::of(at, &p) == Recorder::of(at, &q), "equal values are hashed alike");
        }
        core::mem::forget((p, q));
    });

    /// Empty boards with arbitrary plies and an empty record.
    fn small() -> Position {
        let p = Position::startpos();
        unsafe {
            overwrite(p.initial_position(), small_partial());
            overwrite(p.inner(), small_partial());
        }
        p
    }

    /// Its two positions are empty boards with arbitrary plies: they differ in nothing else.
    fn bounded_small<const N: usize>() -> Position {
        let mut p = kani::bounded_any::<Position, N>();
        unsafe {
            overwrite(p.initial_position(), small_partial());
            overwrite(p.inner(), small_partial());
        }
        p
    }

    /// Parts of positions with history cannot be set otherwise.
    unsafe fn overwrite<T>(place: *const T, value: T) {
        core::ptr::write(place as *mut T, value);
    }

    /// An empty board with an arbitrary ply.
    fn small_partial() -> PartialPosition {
        let mut p = PartialPosition::empty();
        let _ = p.ply_set(kani::any());
        p
    }
}
