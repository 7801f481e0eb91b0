//! C21: resolving a game sets its result and changes nothing else.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

fn same_result(a: Option<GameResolution>, b: Option<GameResolution>) -> bool {
    spec::opt8(a) == spec::opt8(b)
}

lemma!(partial_game, {
    let mut g: PartialGame = kani::any();
    let r: GameResolution = kani::any();
    let old = spec::snapshot(g.position());
    assert!(spec::raw8(g.PartialGame_resolution()) == spec::opt8(g.resolution()), "the C counterpart agrees");
    g.resolve(r);
    assert!(same_result(g.resolution(), Some(r)), "the result is what was set");
    assert!(spec::raw8(g.PartialGame_resolution()) == spec::raw8(r), "the C counterpart agrees");
    assert!(spec::same_position(&old, g.position()), "setting a result keeps the position");
    let again: GameResolution = kani::any();
    g.resolve(again);
    assert!(same_result(g.resolution(), Some(again)), "a result can be replaced");
    g.unresolve();
    assert!(same_result(g.resolution(), None), "the result is withdrawn");
    assert!(spec::raw8(g.PartialGame_resolution()) == 0, "the C counterpart agrees");
    assert!(spec::same_position(&old, g.position()), "withdrawing a result keeps the position");
});

lemma!(partial_game_default, {
    let g = PartialGame::default();
    assert!(same_result(g.resolution(), None), "a new game has no result");
    assert!(spec::pos_startpos(g.position()), "a new game is at the starting position");
});

fn positions_kept(old: &(PartialPosition, PartialPosition, usize), g: &Game) -> bool {
    let p = g.position();
    spec::same_position(&old.0, p.inner()) && spec::same_position(&old.1, p.initial_position()) && old.2 == p.moves().len()
}

lemma!(game, {
    let mut g: Game = kani::bounded_any::<Game, 1>();
    let r: GameResolution = kani::any();
    let old = (spec::snapshot(g.position().inner()), spec::snapshot(g.position().initial_position()), g.position().moves().len());
    let mv = g.position().moves().first().copied();
    assert!(spec::raw8(g.Game_resolution()) == spec::opt8(g.resolution()), "the C counterpart agrees");
    g.resolve(r);
    assert!(same_result(g.resolution(), Some(r)), "the result is what was set");
    assert!(spec::raw8(g.Game_resolution()) == spec::raw8(r), "the C counterpart agrees");
    assert!(positions_kept(&old, &g), "setting a result keeps the position");
    assert!(spec::same_opt_move(mv, g.position().moves().first().copied()), "setting a result keeps the record");
    g.unresolve();
    assert!(same_result(g.resolution(), None), "the result is withdrawn");
    assert!(spec::raw8(g.Game_resolution()) == 0, "the C counterpart agrees");
    assert!(positions_kept(&old, &g), "withdrawing a result keeps the position");
    assert!(spec::same_opt_move(mv, g.position().moves().first().copied()), "withdrawing a result keeps the record");
    core::mem::forget(g);
});

lemma!(game_default, {
    let g = Game::default();
    assert!(same_result(g.resolution(), None), "a new game has no result");
    assert!(spec::pos_startpos(g.position().inner()), "a new game is at the starting position");
    assert!(spec::pos_startpos(g.position().initial_position()), "a new game starts at the starting position");
    assert!(g.position().moves().is_empty(), "a new game has no moves");
    core::mem::forget(g);
});
