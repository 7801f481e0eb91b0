//! C06: encoding and promotion of pieces, kinds of pieces and colors.
use shogi_core::c_compat::*;
use shogi_core::contracts as spec;
use shogi_core::*;

fn_check!(color_flip, [Color::flip], |c: Color| c.flip() => |r| spec::color_flip(c, r));
fn_check!(color_array_index, [Color::array_index], |c: Color| c.array_index() => |r| spec::color_array_index(c, r));
fn_check!(kind_promote, [PieceKind::promote], |k: PieceKind| k.promote() => |r| spec::kind_promote(k, r));
fn_check!(kind_unpromote, [PieceKind::unpromote], |k: PieceKind| k.unpromote() => |r| spec::kind_unpromote(k, r));
fn_check!(kind_from_u8, [PieceKind::from_u8], |v: u8| PieceKind::from_u8(v) => |r| spec::kind_from_u8(v, r));
fn_check!(kind_from_u8_c, [PieceKind::PieceKind_from_u8], |v: u8| PieceKind::PieceKind_from_u8(v) => |r| spec::kind_from_u8_c(v, &r));
fn_check!(kind_from_u8_unchecked, [PieceKind::from_u8_unchecked], |v: u8| requires spec::kind_code_ok(v); unsafe { PieceKind::from_u8_unchecked(v) } => |r| spec::kind_from_u8_unchecked(v, r));
fn_check!(kind_from_u8_unchecked_c, [PieceKind::PieceKind_from_u8_unchecked], |v: u8| requires spec::kind_code_ok(v); unsafe { PieceKind::PieceKind_from_u8_unchecked(v) } => |r| spec::kind_from_u8_unchecked(v, r));
fn_check!(kind_promote_c, [PieceKind::PieceKind_promote], |k: PieceKind| k.PieceKind_promote() => |r| spec::kind_promote_c(k, &r));
fn_check!(kind_unpromote_c, [PieceKind::PieceKind_unpromote], |k: PieceKind| k.PieceKind_unpromote() => |r| spec::kind_unpromote_c(k, &r));
fn_check!(kind_array_index, [PieceKind::array_index], |k: PieceKind| k.array_index() => |r| spec::kind_array_index(k, r));
fn_check!(kind_option_array_index, [PieceKind::option_array_index], |k: Option<PieceKind>| PieceKind::option_array_index(k) => |r| spec::kind_option_array_index(k, r));
fn_check!(kind_all, [PieceKind::all], | | PieceKind::all() => |r| spec::kind_all(r));
fn_check!(piece_new, [Piece::new], |k: PieceKind, c: Color| Piece::new(k, c) => |r| spec::piece_new(k, c, r));
fn_check!(piece_new_c, [Piece::Piece_new], |k: PieceKind, c: Color| Piece::Piece_new(k, c) => |r| spec::piece_new(k, c, r));
fn_check!(piece_to_parts, [Piece::to_parts], |p: Piece| p.to_parts() => |r| spec::piece_to_parts(p, r));
fn_check!(piece_kind, [Piece::piece_kind], |p: Piece| p.piece_kind() => |r| spec::piece_kind(p, r));
fn_check!(piece_color, [Piece::color], |p: Piece| p.color() => |r| spec::piece_color(p, r));
fn_check!(piece_as_u8, [Piece::as_u8], |p: Piece| p.as_u8() => |r| spec::piece_as_u8(p, r));
fn_check!(piece_promote, [Piece::promote], |p: Piece| p.promote() => |r| spec::piece_promote(p, r));
fn_check!(piece_unpromote, [Piece::unpromote], |p: Piece| p.unpromote() => |r| spec::piece_unpromote(p, r));
fn_check!(piece_promote_c, [Piece::Piece_promote], |p: Piece| p.Piece_promote() => |r| spec::piece_promote_c(p, r));
fn_check!(piece_unpromote_c, [Piece::Piece_unpromote], |p: Piece| p.Piece_unpromote() => |r| spec::piece_unpromote_c(p, r));
fn_check!(piece_array_index, [Piece::array_index], |p: Piece| p.array_index() => |r| spec::piece_array_index(p, r));
fn_check!(piece_all, [Piece::all], | | Piece::all() => |r| spec::piece_all(r));
fn_check!(piece_from_u8_unchecked, [Piece::from_u8_unchecked], |v: u8| requires spec::piece_code_ok(v); unsafe { spec::piece_from_u8_unchecked(v) } => |r| spec::raw8(r) == v);

lemma!(discriminants, {
    assert!(Color::Black as u8 == 1 && Color::White as u8 == 2, "colors");
    let kinds = [
        PieceKind::Pawn, PieceKind::Lance, PieceKind::Knight, PieceKind::Silver, PieceKind::Gold,
        PieceKind::Bishop, PieceKind::Rook, PieceKind::King, PieceKind::ProPawn,
        PieceKind::ProLance, PieceKind::ProKnight, PieceKind::ProSilver, PieceKind::ProBishop,
        PieceKind::ProRook,
    ];
    let i: usize = kani::any();
    kani::assume(i < 14);
    assert!(kinds[i] as usize == i + 1, "kinds of pieces");
    assert!(PieceKind::NUM == 14 && PieceKind::OPTION_NUM == 15 && Color::NUM == 2 && Piece::NUM == 31, "sizes");
    let colors = Color::all();
    assert!(ci(colors[0]) == 0 && ci(colors[1]) == 1, "all colors");
});

fn ci(c: Color) -> usize {
    spec::ci(c)
}

lemma!(round_trips, {
    let (p, k, c): (Piece, PieceKind, Color) = (kani::any(), kani::any(), kani::any());
    assert!(Piece::new(p.piece_kind(), p.color()) == p, "new is the inverse of piece_kind and color");
    assert!(Piece::new(k, c).to_parts() == (k, c), "to_parts is the inverse of new");
    assert!(c.flip() != c && c.flip().flip() == c, "flip swaps the colors");
    assert!(PieceKind::from_u8(k as u8) == Some(k), "from_u8 is the inverse of the discriminant");
    if let Some(q) = p.promote() {
        assert!(q.unpromote() == Some(p) && q.color() == p.color() && q.promote().is_none(), "unpromote undoes promote");
    }
    if let Some(q) = p.unpromote() {
        assert!(q.promote() == Some(p) && q.color() == p.color() && q.unpromote().is_none(), "promote undoes unpromote");
    }
});

lemma!(piece_constants, {
    use shogi_core::consts::piece as m;
    let inherent = [
        [Piece::B_P, Piece::B_L, Piece::B_N, Piece::B_S, Piece::B_G, Piece::B_B, Piece::B_R, Piece::B_K,
         Piece::B_PP, Piece::B_PL, Piece::B_PN, Piece::B_PS, Piece::B_PB, Piece::B_PR],
        [Piece::W_P, Piece::W_L, Piece::W_N, Piece::W_S, Piece::W_G, Piece::W_B, Piece::W_R, Piece::W_K,
         Piece::W_PP, Piece::W_PL, Piece::W_PN, Piece::W_PS, Piece::W_PB, Piece::W_PR],
    ];
    let module = [
        [m::B_P, m::B_L, m::B_N, m::B_S, m::B_G, m::B_B, m::B_R, m::B_K, m::B_PP, m::B_PL, m::B_PN, m::B_PS, m::B_PB, m::B_PR],
        [m::W_P, m::W_L, m::W_N, m::W_S, m::W_G, m::W_B, m::W_R, m::W_K, m::W_PP, m::W_PL, m::W_PN, m::W_PS, m::W_PB, m::W_PR],
    ];
    let (i, c): (usize, usize) = (kani::any(), kani::any());
    kani::assume(i < 14 && c < 2);
    let code = i as u8 + 1 + 16 * c as u8;
    assert!(spec::raw8(inherent[c][i]) == code, "the constants of Piece");
    assert!(spec::raw8(module[c][i]) == code, "the constants in consts::piece");
});
