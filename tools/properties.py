"""Writes properties.jsonl. (One place to edit; the output is committed.)"""
import json, os
S = "shogi_core/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [f if "/" in f else S + f for f in files],
                          "mechanism": [{"name": n, "where": w if "/" in w else S + w} for n, w in mech],
                          "hook_needed": hook}})


SAMPLE = "The tests evaluate a few hand-picked values; the statement is about every value."
prop("C01", "Square coordinates, reflection, shifts and numbering agree for every square",
     "Squares are in bijection with pairs of a file and a rank in 1..=9 and with the numbers 1..=81 (file by file, rank by rank), and every constructor accepts exactly the valid arguments, in absolute terms or as seen by either player. Reflecting a square turns file and rank n into 10-n, is its own inverse, and is what makes relative coordinates of the two players agree. Shifting a square by any deltas gives the square at the sum of the coordinates, or nothing exactly if that is off the board, and enumerating all squares yields each of the 81 exactly once in the order of their numbers.",
     ["inputs"], "All 81 squares, all u8 file/rank/number arguments, both colors, all i8 deltas.",
     SAMPLE + " The shift in particular has 81*65536 cases, most of them overflow corner cases.",
     ["square.rs"], [("Square::new, new_relative, from_u8, flip, shift, all and their C counterparts", "square.rs")])
prop("C02", "Bitboards are sets of squares: operators are exactly the set operations",
     "A bitboard stands for a set of squares, and the empty board, singletons, union, intersection, symmetric difference, difference, complement, reflection, membership, insertion of a square, emptiness and size are exactly the operations on sets, for all operands. Every operation, in each of its spellings (operators, assignment operators, methods, C functions), yields a valid board whose unused bits are clear, so that two boards are equal if and only if they have the same members.",
     ["inputs"], "All pairs of sets of squares (2^81 * 2^81) and all squares.",
     "The tests try a handful of boards. The two words of a board make bugs specific to some files, which only a proof over all sets rules out.",
     ["bitboard.rs"], [("two-word representation with bit 63 of the first word unused", "bitboard.rs")])
prop("C03", "Draining a bitboard yields every member exactly once and then stops",
     "Removing squares from a bitboard one at a time, or iterating over it, yields a member each time, removes that square and nothing else, and reports the end exactly when the set is empty, so that a drain takes as many steps as the set has members. The number of members and the emptiness test agree with this, and every advertised bound on the remaining length is right.",
     ["inputs", "histories"], "All sets of squares; every drain, by induction on its steps.",
     "The tests drain a few boards; a board that loops or loses a member can be any of 2^81.",
     ["bitboard.rs"], [("Bitboard::pop, Bitboard_pop, Iterator for Bitboard, count, is_empty", "bitboard.rs")])
prop("C04", "Shifting a bitboard moves every member, drops the rest, touches no other file",
     "Shifting a bitboard down, up, left or right by any allowed amount yields exactly the set of the members' shifted squares, without those that leave the board: nothing wraps to another file or rank and no invalid bit appears. Reading one file and building a board from one file's pattern are inverse to each other and affect that file only.",
     ["inputs"], "All sets of squares, all allowed distances, all files and 9-bit patterns.",
     "The tests shift a few boards by a few distances. (A leak of a bit out of the first word by right shifts of 0 and 1 was found by this property, in a case the tests do not have.)",
     ["bitboard.rs"], [("shift_down, shift_up, shift_left, shift_right, get_file, from_file", "bitboard.rs")])
prop("C05", "Integer and byte-swapped forms of a bitboard convert without loss",
     "Converting a bitboard to its 128-bit integer form and back, or to the byte-swapped form and back, gives the same board for every board, and byte swapping reverses the order of the 16 bytes. The bitwise operations on byte-swapped boards commute with the swap.",
     ["inputs"], "All sets of squares and pairs of them.",
     SAMPLE, ["bitboard.rs"], [("to_u128, from_u128_unchecked, swap_bytes, ByteSwappedBitboard's operators", "bitboard.rs")])
prop("C06", "Pieces, piece kinds, colors: encodings, parts and promotion are consistent",
     "A piece is determined by its kind and its color: building one and taking it apart are inverse, the numeric encodings are the documented ones and every conversion from a number accepts exactly those. Promotion and its inverse are defined for exactly the six promotable kinds and their promoted versions, keep the color, undo each other, and agree between kinds, pieces and their C counterparts. Enumerating all kinds, pieces or colors yields each exactly once, and indices are distinct and in range.",
     ["inputs"], "All kinds, pieces, colors and u8 arguments.",
     SAMPLE, ["piece.rs", "piece_kind.rs", "color.rs"],
     [("Piece::new, to_parts, promote, unpromote, from_u8, all", "piece.rs"),
      ("PieceKind::promote, unpromote, from_u8, all", "piece_kind.rs"), ("Color::flip, all", "color.rs")])
prop("C07", "Packing a move into two bytes is lossless; all questions get the same answer",
     "Every move has a documented two-byte form from which exactly that move is recovered, and every valid two-byte form comes from exactly one move. Origin, destination, whether it promotes and whether it is a drop are the same for a move and its packed form, however it was constructed.",
     ["inputs"], "All moves (81*81*2 normal ones, 28*81 drops) and all valid two-byte forms.",
     "The tests pack a few moves; drops of white pieces share bits with the promotion flag, so errors hide in corners.",
     ["mv.rs"], [("CompactMove::normal, drop, from, to, is_promoting, is_drop, the conversions from and to Move", "mv.rs")])
prop("C08", "A hand is a multiset of the seven hand kinds, and nothing else",
     "Adding a piece to a hand raises the count of that kind by one, removing one lowers it by one and fails exactly if there is none, and no other count changes. All operations on kinds that cannot be in a hand fail and leave the hand as it was, and the C counterparts that work in place agree with the others.",
     ["inputs", "histories"], "All hands (every count 0..=255; at 255 adding wraps to 0), all kinds; every sequence of operations, by induction.",
     "The tests add and remove a few pieces; failure must leave the hand alone for every hand.",
     ["hand.rs"], [("Hand::added, removed, count, Hand_add, Hand_remove, is_hand_piece, all_hand_pieces", "hand.rs")])
prop("C09", "All views of a position agree after every way of making or changing it",
     "Asking what is on a square, which squares a player or a kind occupies, which squares are occupied or vacant, and where a king is always gives consistent answers: after creating an empty or a starting position, after placing or removing any piece on any square, and after any move. Placing a piece changes that square only, and setting the side to move or the ply changes nothing else.",
     ["inputs", "histories"], "All consistent positions, as the induction hypothesis; all squares and pieces to place, all moves; hence every history of public operations from the constructors.",
     "The tests look at the starting position and a few moves from it. The views are redundant data that every operation must update together; a stale view shows only in the positions that use it.",
     ["position.rs"], [("board, player_bb, piece_bb, king_square kept in step by piece_set, make_move and the constructors", "position.rs")],
     "cfg(kani): an arbitrary position, from private fields")
prop("C10", "A move succeeds exactly if it makes sense, and has exactly its effect",
     "A normal move succeeds exactly if the mover has a piece on the origin, the destination holds no piece of the mover and no king, and the piece can promote if asked to; a drop succeeds exactly if the piece is the mover's, of a kind in the mover's hand, and the destination is vacant. Then the moved piece (promoted if asked) is on the destination, the origin is vacant, a captured piece is in the mover's hand unpromoted, a dropped one is gone from it, the turn passes, the ply goes up by one, the move is the last move, and nothing else has changed. The packed form of a move has the same effect.",
     ["inputs", "histories"], "All consistent positions (81 squares, all hands, both sides) and all moves.",
     "The tests make a few dozen moves from the starting position; the effect must be right for every combination of pieces, squares and hands.",
     ["position.rs"], [("PartialPosition::make_move, make_compact_move", "position.rs")],
     "cfg(kani): an arbitrary position, from private fields")
prop("C11", "A move that fails leaves the position as it was",
     "Whenever making a move reports failure, nothing about the position has changed: no square, no hand, no bitboard, not the turn, the ply, the last move, a king's place, nor the record of moves. This holds for positions with and without a move history and for both forms of a move.",
     ["inputs"], "All consistent positions, all moves that fail.",
     "Partial updates before a failure show only for moves that fail late (a captured king, a promotion that is impossible), which the tests hardly try.",
     ["position.rs"], [("checks before any write in make_move", "position.rs")],
     "cfg(kani): an arbitrary position, from private fields")
prop("C12", "Moves conserve material, and never take a king",
     "A successful move keeps, for every kind of piece regardless of promotion, the total number of that kind on the board and in both hands, and only the mover's hand can change. No move removes a king from the board, and a hand never gets a king or a promoted piece.",
     ["inputs", "histories"], "All consistent positions in which no hand holds 255 of a kind, all moves; hence all games.",
     "A sum over the whole board after every move, for every position; the tests have no such sum.",
     ["position.rs", "hand.rs"], [("capture and drop in make_move", "position.rs"), ("Hand::added, removed", "hand.rs")],
     "cfg(kani): an arbitrary position, from private fields")
prop("C13", "A position with history: initial position and moves replay to the current one",
     "A position with a history keeps its initial position for ever, and making a move appends exactly that move to its record if and only if it succeeds, changing the current position exactly as the history-free position would change. All its questions are answered for the current position, and a new one has an empty record.",
     ["inputs", "histories"], "All consistent initial and current positions, all moves, records of up to two moves before the step (bounded in the record's length only).",
     "A step of any history is to be covered, not the histories tried.",
     ["position.rs"], [("Position::make_move, arbitrary_position, startpos and the delegating methods", "position.rs")],
     "cfg(kani): an arbitrary Position")
prop("C14", "SFEN output is exactly the SFEN text of the position",
     "For every position, the SFEN text lists the ranks from the first to the ninth and in each the files from the ninth to the first, with runs of vacant squares as one digit and promoted pieces marked with a plus, then the side to move, then both hands (black's first, each in the order rook, bishop, gold, silver, knight, lance, pawn, a count only if above one, a dash exactly if both are empty), then the ply. The output has no other characters, and the owned text and the streamed text are the same.",
     ["inputs"], "All boards (29^81), all hands, both sides, all plies.",
     "The tests compare a few texts; runs of vacant squares, orders and omitted counts are case distinctions over the whole board.",
     ["position.rs", "hand.rs", "common.rs", "piece.rs"],
     [("PartialPosition::to_sfen", "position.rs"), ("ToUsi for [Hand; 2]", "hand.rs"), ("write_u8, write_u16, write_ascii_byte", "common.rs"), ("ToUsi for Piece", "piece.rs")],
     "cfg(kani): an arbitrary position, from private fields")
prop("C15", "SFEN output to a C buffer stays within the documented size",
     "Writing SFEN text to a caller's buffer writes exactly the text followed by one zero byte, each byte once and in order, and touches no other memory. For every position with at most the 40 pieces of a shogi set, this is within the documented bound of 139 bytes.",
     ["inputs"], "All texts that the writer can be given; all boards and hands within a set of 40 pieces.",
     "The longest position is not one anyone would write a test for, and one byte too many is not visible without a memory checker.",
     ["position.rs"], [("PartialPosition::to_sfen_c, Position::to_sfen_c", "position.rs")],
     "cfg(kani): an arbitrary position, from private fields")
prop("C16", "USI text is exact for every value, and errors come exactly from the sink",
     "Squares, pieces, piece kinds, colors, moves (both forms) and hands are written exactly in USI notation. Writing reports an error if and only if the sink reports one, and writes nothing more after that.",
     ["inputs", "fault_sequences"], "All values of each type; a sink that fails at any one of its calls.",
     "The tests write a few values to sinks that never fail.",
     ["square.rs", "piece.rs", "piece_kind.rs", "color.rs", "mv.rs", "hand.rs", "common.rs", "to_usi.rs"],
     [("the implementors of ToUsi", "to_usi.rs"), ("write_u8, write_u16, write_ascii_byte", "common.rs")])
prop("C17", "Equality, ordering and hashing agree with each other for every type",
     "For every public type, the ordering is a total order that says equal exactly if equality does, comparison operators agree with it, and equal values are hashed alike. A copy of a value equals it. Values that any accessor tells apart are not equal.",
     ["inputs"], "All pairs and triples of values of each type; positions: all pairs of consistent ones.",
     "Agreement is a relation between three implementations over all pairs of values; the tests compare a few.",
     ["annotated_derive.rs", "position.rs", "bitboard.rs", "mv.rs"],
     [("impl_ord_*, impl_hash_* macros next to derived Eq", "annotated_derive.rs")],
     "cfg(kani): arbitrary values")
prop("C18", "C-compatible option and result types convert without loss",
     "Every optional or result value that crosses the C interface has its documented one- or two-byte encoding (zero for none or success), and converting to that type and back gives the same value, for all values and all valid encodings. Default values stand for none or success.",
     ["inputs"], "All values of each of the six bridge types and their Rust counterparts.",
     SAMPLE, ["square.rs", "piece.rs", "piece_kind.rs", "mv.rs", "game_resolution.rs", "illegal_move_kind.rs"],
     [("OptionSquare, OptionPiece, OptionPieceKind, OptionCompactMove, OptionGameResolution, ResultUnitIllegalMoveKind", "lib.rs")])
prop("C19", "Safe functions neither panic nor misbehave on any valid input",
     "No safe public function panics, overflows, reads or writes out of bounds or creates an invalid value, whatever valid arguments it is given. The unchecked functions have no such effect either, as long as their documented conditions hold.",
     ["inputs"], "All valid arguments of every function that is reached by the harnesses; positions need not be consistent.",
     "The code relies on unchecked indexing and transmutes throughout; the tests run a sliver of the inputs and without a memory checker.",
     ["bitboard.rs", "position.rs", "square.rs", "piece.rs", "piece_kind.rs", "mv.rs", "hand.rs"],
     [("unsafe blocks with get_unchecked, transmute and new_unchecked", "lib.rs")],
     "cfg(kani): arbitrary values")
prop("C20", "Default legality answers follow from the checker's core answers",
     "Whatever a legality checker answers for the status of a position, a finished or invalid position has no legal moves in any of the provided forms (reason given, yes or no, list), and a position in progress gets the history-free answer for its current position. Making a move through a checker makes exactly that move if it is legal, and otherwise changes nothing and passes on the reason.",
     ["inputs", "programs"], "Every checker (arbitrary answers), all positions and moves.",
     "The crate has no implementor of the trait; the tests have no checker at all.",
     ["legality.rs"], [("provided methods of LegalityChecker", "legality.rs")], "cfg(kani): an arbitrary Position")
prop("C21", "Resolving a game sets its result and changes nothing else",
     "A game's result is none at first, is what was last set, and is none again after it is withdrawn; setting or withdrawing it never changes the game's position. Both kinds of game, and their C counterparts, agree.",
     ["inputs", "histories"], "All games and all results.",
     "The tests have no test of it.",
     ["position.rs"], [("Game, PartialGame: resolve, unresolve, resolution, position", "position.rs")], "cfg(kani): arbitrary games")
prop("C22", "The library's own memory functions and allocator behave as specified",
     "Without the standard library, the memory functions that the C library brings along copy, fill, clear and compare exactly the given range with the results the C standard specifies. Its allocator returns memory that is inside its arena, aligned as asked for and disjoint from everything it returned before, or null exactly if there is not enough of it left or the alignment is not supported; a failed request takes nothing.",
     ["inputs", "histories", "configurations"], "All sizes, alignments and remaining amounts (allocator, by induction on requests); all contents of short ranges (memory functions).",
     "The tests link the library and play one game with it.",
     ["shogi_core_c/src/no_std.rs"], [("memcpy, memset, memcmp, __bzero, SimpleAllocator", "shogi_core_c/src/no_std.rs")])
prop("C23", "Every C function does what its Rust counterpart does",
     "Each function offered to C gives the answer, and has the effect, of the Rust function it stands for, on all valid arguments, with options and results in their C encodings. Objects created for C are initialised completely and equal the Rust ones.",
     ["inputs"], "All valid arguments of every function of the C interface that has a Rust counterpart.",
     "The C tests call three functions.",
     ["square.rs", "bitboard.rs", "piece.rs", "piece_kind.rs", "mv.rs", "hand.rs", "position.rs", "color.rs"],
     [("no_mangle and export_name functions", "lib.rs")], "cfg(kani): arbitrary values")
prop("C24", "The C header matches the exported functions and types",
     "Every function and type in the C header exists in the library under that name, with that signature, layout and meaning of its encoding. A program compiled against the header calls what it means to call.",
     ["programs", "configurations"], "All functions and types of the header.",
     "One C program that uses a few functions is compiled against it.",
     ["include/shogi_core.h"], [("cbindgen output, compared by a CI job", "include/shogi_core.h")])
prop("C25", "The allocator is safe under concurrent requests",
     "Requests made from several threads at the same time get disjoint blocks of memory.",
     ["schedules"], "All interleavings of two or more requests.",
     "The tests are single-threaded.",
     ["shogi_core_c/src/no_std.rs"], [("fetch_update on the remaining amount", "shogi_core_c/src/no_std.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
