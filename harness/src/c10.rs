//! C10: a move succeeds exactly if it makes sense, and has exactly its effect.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

pub mod plain {
    use super::*;

    make_move_clause!(success, "a move succeeds exactly if it makes sense",
        |old, new, mv, ok, effect| ok == effect.is_some());
    make_move_clause!(board, "the board after a move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => spec::moved_board(&old, &new, &e),
            _ => true,
        });
    make_move_clause!(bitboards, "the bitboards after a move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => spec::moved_bitboards(&old, &new, &e),
            _ => true,
        });
    make_move_clause!(hands_and_state, "the hands, the turn, the ply and the last move after a move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => {
                let (v, w) = (spec::view(&old), spec::view(&new));
                spec::moved_hands(&v, &w, &e) && spec::moved_state(&v, &w, mv)
            }
            _ => true,
        });

    // The packed form of a move has the same effect.
    make_move_clause!(compact compact_success, "a move succeeds exactly if it makes sense",
        |old, new, mv, ok, effect| ok == effect.is_some());
    make_move_clause!(compact compact_board, "the board after a packed move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => spec::moved_board(&old, &new, &e),
            _ => true,
        });
    make_move_clause!(compact compact_bitboards, "the bitboards after a packed move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => spec::moved_bitboards(&old, &new, &e),
            _ => true,
        });
    make_move_clause!(compact compact_hands_and_state, "the hands, the turn, the ply and the last move after a packed move",
        |old, new, mv, ok, effect| match effect {
            Some(e) if ok => {
                let (v, w) = (spec::view(&old), spec::view(&new));
                spec::moved_hands(&v, &w, &e) && spec::moved_state(&v, &w, mv)
            }
            _ => true,
        });

}

#[cfg(kani_contracts)]
pub mod contract {
    use super::*;

    #[kani::proof_for_contract(PartialPosition::make_move)]
    fn make_move() {
        let mut p: PartialPosition = kani::any();
        let mv: Move = kani::any();
        let _ = p.make_move(mv);
    }

    #[kani::proof_for_contract(PartialPosition::make_compact_move)]
    fn make_compact_move() {
        let mut p: PartialPosition = kani::any();
        let mv: CompactMove = kani::any();
        let _ = p.make_compact_move(mv);
    }
}
