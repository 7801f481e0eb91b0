//! C11: a move that fails leaves the position as it was.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

make_move_clause!(failure, "a move that fails changes nothing",
    |old, new, mv, ok, effect| ok || spec::same_position(&old, &new));
make_move_clause!(compact failure_compact, "a packed move that fails changes nothing",
    |old, new, mv, ok, effect| ok || spec::same_position(&old, &new));
