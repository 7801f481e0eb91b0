//! C16: USI text is exact for every value, and errors come exactly from the sink.
use crate::text::*;
use shogi_core::contracts as spec;
use shogi_core::*;

fn check<T: ToUsi>(x: &T, text: impl Fn(&mut Text)) {
    let at: usize = kani::any();
    let mut want = Text::new(at);
    text(&mut want);
    let mut sink = Sink::new(at, kani::any());
    let r = x.to_usi(&mut sink);
    kani::cover!(r.is_ok(), "writing succeeds");
    kani::cover!(r.is_err(), "writing fails");
    assert!(r.is_err() == sink.failed, "an error is reported exactly if the sink reports one");
    assert!(!sink.after, "nothing is written after an error");
    if r.is_ok() {
        assert!(sink.text.len == want.len, "the text has the right length");
    }
    assert!(sink.text.len <= want.len, "the text is not too long");
    assert!(at >= sink.text.len || sink.text.byte == want.byte, "the text is right");
}

fn check_owned<T: ToUsi>(x: &T, text: impl Fn(&mut Text)) {
    let at: usize = kani::any();
    let mut want = Text::new(at);
    text(&mut want);
    let s = x.to_usi_owned();
    assert!(s.len() == want.len, "the owned text has the right length");
    assert!(at >= s.len() || s.as_bytes()[at] == want.byte, "the owned text is right");
    core::mem::forget(s);
}

macro_rules! usi {
    ($name:ident, $owned:ident, $ty:ty, |$t:ident, $x:ident| $text:expr) => {
        lemma!($name, {
            let $x: $ty = kani::any();
            check(&$x, |$t| $text);
        });
        lemma!($owned, {
            let $x: $ty = kani::any();
            check_owned(&$x, |$t| $text);
        });
    };
}

pub mod light {
    use super::*;
    usi!(square, square_owned, Square, |t, x| square_text(t, x));
    usi!(color, color_owned, Color, |t, x| t.push(if spec::raw8(x) == 1 { b'b' } else { b'w' }));
    usi!(piece_kind, piece_kind_owned, PieceKind, |t, x| kind_text(t, spec::raw8(x), false));
    usi!(piece, piece_owned, Piece, |t, x| {
        let code = spec::raw8(x);
        kind_text(t, spec::pkind(code), code > 16)
    });
    usi!(mv, mv_owned, Move, |t, x| move_text(t, x));
    usi!(compact_move, compact_move_owned, CompactMove, |t, x| move_text(t, spec::move_of(x)));
}

pub mod hands {
    use super::*;
    lemma!(hands, {
        let x: [Hand; 2] = kani::any();
        check(&x, |t| hands_text(t, x));
    });
    // The owned text of hands with rooks and pawns only.
    lemma!(bounded_hands_owned, {
        let mut x = [Hand::new(); 2];
        let n: u8 = kani::any();
        unsafe {
            let p = &mut x as *mut [Hand; 2] as *mut u8;
            *p = n;
            *p.add(14) = kani::any();
        }
        check_owned(&x, |t| hands_text(t, x));
    });
}
