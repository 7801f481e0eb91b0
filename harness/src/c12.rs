//! C12: moves conserve material, and never take a king.
//!
//! The number of pieces of a kind is a sum over the 81 squares and the two hands. A move changes
//! the summands of its two squares and of one hand only (asserted for an arbitrary other square),
//! so the sum is kept if and only if the sum of those summands is.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

/// The code of the kind without promotion, or 0 if there is no piece.
fn base(code: u8) -> u8 {
    if code == 0 {
        return 0;
    }
    let k = spec::pkind(code);
    if spec::unpromoted(k) != 0 {
        spec::unpromoted(k)
    } else {
        k
    }
}

fn in_hand(p: &PartialPosition, c: Color, k: u8) -> u32 {
    if k <= 7 {
        spec::hand_at(p.hand_of_a_player(c), k) as u32
    } else {
        0
    }
}

/// How many pieces of a kind there are on two squares (one, if they are the same) and in the hands.
fn amount(p: &PartialPosition, from: Option<Square>, to: Square, k: u8) -> u32 {
    let mut n = (base(spec::at(p, to)) == k) as u32;
    if let Some(from) = from {
        if !spec::same8(from, to) {
            n += (base(spec::at(p, from)) == k) as u32;
        }
    }
    n + in_hand(p, Color::Black, k) + in_hand(p, Color::White, k)
}

fn kings(p: &PartialPosition, from: Option<Square>, to: Square, c: Color) -> u32 {
    let king = spec::code_of_piece(8, c);
    let mut n = (spec::at(p, to) == king) as u32;
    if let Some(from) = from {
        if !spec::same8(from, to) {
            n += (spec::at(p, from) == king) as u32;
        }
    }
    n
}

macro_rules! conservation {
    ($name:ident, $arg:ident : $ty:ty, $mv:expr, |$p:ident| $call:expr) => {
        lemma!($name, {
            let mut $p: PartialPosition = kani::any();
            let $arg: $ty = kani::any();
            let mv: Move = $mv;
            let (from, to) = match mv {
                Move::Normal { from, to, .. } => (Some(from), to),
                Move::Drop { to, .. } => (None, to),
            };
            let k: u8 = kani::any();
            kani::assume(1 <= k && k <= 8);
            kani::assume(spec::make_move_pre(&$p, mv));
            // A hand that already holds 255 pieces of a kind wraps around. (A shogi set has 18 pawns.)
            kani::assume(k > 7 || in_hand(&$p, Color::Black, k) < 255 && in_hand(&$p, Color::White, k) < 255);
            let (q, c): (Square, Color) = (kani::any(), kani::any());
            let old = spec::snapshot(&$p);
            let ok = $call;
            kani::cover!(ok, "some move succeeds");
            if ok {
                if !spec::same8(q, to) && !from.map_or(false, |from| spec::same8(q, from)) {
                    assert!(spec::at(&$p, q) == spec::at(&old, q), "no other square is touched");
                }
                assert!(amount(&$p, from, to, k) == amount(&old, from, to, k), "material is conserved");
                assert!(kings(&$p, from, to, c) == kings(&old, from, to, c), "no king comes or goes");
                let other = if spec::ci(old.side_to_move()) == 0 { Color::White } else { Color::Black };
                assert!(spec::hand_same($p.hand_of_a_player(other), old.hand_of_a_player(other)), "only the mover's hand changes");
                assert!(spec::hand_ok($p.hand_of_a_player(c)), "a hand has hand pieces only");
            }
        });
    };
}

conservation!(make_move, mv: Move, mv, |p| p.make_move(mv).is_some());
conservation!(make_compact_move, packed: CompactMove, spec::move_of(packed), |p| p.make_compact_move(packed));
