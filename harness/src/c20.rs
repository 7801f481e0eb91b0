//! C20: default legality answers follow from the checker's core answers.
extern crate alloc;
use alloc::vec::Vec;
use shogi_core::contracts as spec;
use shogi_core::*;

/// A checker with arbitrary answers that are consistent in themselves: what it says of a position
/// without history depends on the position, which it is asked for by address here, and on the move.
struct Checker {
    status: PositionStatus,
    inner: *const PartialPosition,
    mv: Move,
    answer: Result<(), IllegalMoveKind>,
    yes: bool,
    list: usize,
}

fn arbitrary_list(n: usize) -> Vec<Move> {
    let mut v = Vec::new();
    if n >= 1 {
        v.push(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false });
    }
    if n >= 2 {
        v.push(Move::Drop { piece: Piece::B_P, to: Square::SQ_5E });
    }
    v
}

impl LegalityChecker for Checker {
    fn status(&self, _: &Position) -> PositionStatus {
        self.status
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        kani::any()
    }
    fn is_legal_partial(&self, p: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        assert!(p as *const PartialPosition == self.inner, "the question is about the current position");
        assert!(spec::same_move(mv, self.mv), "the question is about the move");
        self.answer
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, mv: Move) -> bool {
        assert!(p as *const PartialPosition == self.inner, "the question is about the current position");
        assert!(spec::same_move(mv, self.mv), "the question is about the move");
        self.yes
    }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        assert!(p as *const PartialPosition == self.inner, "the question is about the current position");
        arbitrary_list(self.list)
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        kani::any()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        kani::any()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        kani::any()
    }
}

fn checker(p: &Position, mv: Move) -> Checker {
    let list = kani::any();
    kani::assume(list <= 2);
    Checker {
        status: kani::any(),
        inner: p.inner(),
        mv,
        answer: if kani::any() { Ok(()) } else { Err(kani::any()) },
        yes: kani::any(),
        list,
    }
}

fn in_progress(c: &Checker) -> bool {
    c.status as u8 == PositionStatus::InProgress as u8
}

fn result_code(r: Result<(), IllegalMoveKind>) -> u8 {
    match r {
        Ok(()) => 0,
        Err(e) => spec::raw8(e),
    }
}

lemma!(is_legal, {
    let p: Position = kani::bounded_any::<Position, 1>();
    let mv: Move = kani::any();
    let c = checker(&p, mv);
    let r = result_code(c.is_legal(&p, mv));
    if in_progress(&c) {
        assert!(r == result_code(c.answer), "in progress: the answer for the current position");
    } else {
        assert!(r == IllegalMoveKind::GameFinished as u8, "not in progress: the game is finished");
    }
    core::mem::forget(p);
});

lemma!(is_legal_lite, {
    let p: Position = kani::bounded_any::<Position, 1>();
    let mv: Move = kani::any();
    let c = checker(&p, mv);
    assert!(c.is_legal_lite(&p, mv) == (in_progress(&c) && c.yes), "legal exactly if in progress and legal in the current position");
    core::mem::forget(p);
});

lemma!(all_legal_moves, {
    let p: Position = kani::bounded_any::<Position, 1>();
    let c = checker(&p, kani::any());
    let v = c.all_legal_moves(&p);
    let want = if in_progress(&c) { c.list } else { 0 };
    assert!(v.len() == want, "the moves for the current position if in progress, none otherwise");
    let all = arbitrary_list(2);
    assert!(want < 1 || spec::same_move(v[0], all[0]), "the first move");
    assert!(want < 2 || spec::same_move(v[1], all[1]), "the second move");
    core::mem::forget((p, v, all));
});

// A checker calls a move legal only if the position can make it. (That is what it promises.)
lemma!(make_move, {
    let p: PartialPosition = kani::any();
    let mv: Move = kani::any();
    kani::assume(spec::make_move_pre(&p, mv));
    let old = spec::snapshot(&p);
    let effect = spec::effect(&old, mv);
    let mut p = Position::arbitrary_position(p);
    let c = checker(&p, mv);
    kani::assume(effect.is_some() || c.answer.is_err() || !in_progress(&c));
    let r = result_code(c.make_move(&mut p, mv));
    if in_progress(&c) && c.answer.is_ok() {
        assert!(r == 0, "a legal move is made");
        if let Some(e) = effect {
            assert!(spec::moved_board(&old, p.inner(), &e), "the board after a legal move");
            let (v, w) = (spec::view(&old), spec::view(p.inner()));
            assert!(spec::moved_hands(&v, &w, &e) && spec::moved_state(&v, &w, mv), "the rest of the position after a legal move");
        }
        assert!(p.moves().len() == 1 && spec::same_move(p.moves()[0], mv), "a legal move is recorded");
    } else {
        let want = if in_progress(&c) { result_code(c.answer) } else { IllegalMoveKind::GameFinished as u8 };
        assert!(r == want, "the reason is passed on");
        assert!(spec::same_position(&old, p.inner()), "an illegal move changes nothing");
        assert!(p.moves().is_empty(), "an illegal move is not recorded");
    }
    assert!(spec::same_position(&old, p.initial_position()), "the initial position is kept");
    core::mem::forget(p);
});
