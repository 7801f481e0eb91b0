//! C14: SFEN output is exactly the SFEN text of the position.
use crate::sfen::*;
extern crate alloc;
use shogi_core::contracts as spec;
use shogi_core::*;

pub mod text {
use super::*;

// Assumption: common::write_u8, write_u16 and write_ascii_byte are replaced by what `leaf` proves of them
macro_rules! text {
    ($name:ident, $part:literal) => {
        lemma_without_cover!(
            #[kani::unwind(82)]
            #[kani::stub(shogi_core::common::write_u8, crate::sfen::$name::write_u8)]
            #[kani::stub(shogi_core::common::write_u16, crate::sfen::$name::write_u16)]
            #[kani::stub(shogi_core::common::write_ascii_byte, crate::sfen::$name::write_ascii_byte)]
            $name, {
            let p: PartialPosition = kani::any();
            let (q, hand, kind): (u8, u8, u8) = (kani::any(), kani::any(), kani::any());
            kani::assume(q < 81 && hand < 2 && 1 <= kind && kind <= 7);
            let mut r = Reader::<$part>::new(&p, q, hand, kind);
            assert!(p.to_sfen(&mut r).is_ok(), "writing succeeds");
            r.finish();
        });
    };
}

text!(board, 1);
text!(tail, 2);

lemma!(
    #[kani::unwind(82)]
    #[kani::stub(shogi_core::common::write_u8, crate::sfen::tail::write_u8)]
    #[kani::stub(shogi_core::common::write_u16, crate::sfen::tail::write_u16)]
    #[kani::stub(shogi_core::common::write_ascii_byte, crate::sfen::tail::write_ascii_byte)]
    witness_tail, {
    let mut p = PartialPosition::empty();
    p.side_to_move_set(kani::any());
    let _ = p.ply_set(kani::any());
    let mut r = Reader::<2>::new(&p, 0, 0, 1);
    assert!(p.to_sfen(&mut r).is_ok(), "writing succeeds");
    r.finish();
});

lemma!(
    #[kani::unwind(82)]
    #[kani::stub(shogi_core::common::write_u8, crate::sfen::board::write_u8)]
    #[kani::stub(shogi_core::common::write_u16, crate::sfen::board::write_u16)]
    #[kani::stub(shogi_core::common::write_ascii_byte, crate::sfen::board::write_ascii_byte)]
    witness_board, {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5E, kani::any());
    let mut r = Reader::<1>::new(&p, 40, 0, 1);
    assert!(p.to_sfen(&mut r).is_ok(), "writing succeeds");
    r.finish();
});

lemma!(
    #[kani::unwind(82)]
    #[kani::stub(shogi_core::common::write_u8, crate::sfen::failing::write_u8)]
    #[kani::stub(shogi_core::common::write_u16, crate::sfen::failing::write_u16)]
    #[kani::stub(shogi_core::common::write_ascii_byte, crate::sfen::failing::write_ascii_byte)]
    errors, {
    let p: PartialPosition = kani::any();
    let mut sink = Failing { failed: false, after: false };
    let r = p.to_sfen(&mut sink);
    assert!(r.is_err() == sink.failed, "an error is reported exactly if the sink reports one");
    assert!(!sink.after, "nothing is written after an error");
});
}

/// The functions that are replaced above, by what they are replaced with. (Here the verifier puts
/// the function of the crate in the place of the one of this module.)
pub mod leaf {
    use super::*;
    use crate::text::*;

    fn write_u8<W: core::fmt::Write>(_: &mut W, _: u8) -> core::fmt::Result {
        kani::assume(false);
        Ok(())
    }
    fn write_u16<W: core::fmt::Write>(_: &mut W, _: u16) -> core::fmt::Result {
        kani::assume(false);
        Ok(())
    }
    unsafe fn write_ascii_byte<W: core::fmt::Write>(_: &mut W, _: u8) -> core::fmt::Result {
        kani::assume(false);
        Ok(())
    }

    fn judge(at: usize, want: Text, sink: Sink, r: core::fmt::Result) {
        assert!(r.is_err() == sink.failed, "an error is reported exactly if the sink reports one");
        assert!(!sink.after, "nothing is written after an error");
        assert!(sink.text.len <= want.len && (r.is_err() || sink.text.len == want.len), "the text has the right length");
        assert!(at >= sink.text.len || sink.text.byte == want.byte, "the text is right");
    }

    lemma!(#[kani::stub(write_u8, shogi_core::common::write_u8)] number_u8, {
        let (at, takes, v): (usize, usize, u8) = (kani::any(), kani::any(), kani::any());
        let mut want = Text::new(at);
        want.number(v as u16);
        let mut sink = Sink::new(at, takes);
        let r = write_u8(&mut sink, v);
        judge(at, want, sink, r);
    });

    lemma!(#[kani::stub(write_u16, shogi_core::common::write_u16)] number_u16, {
        let (at, takes, v): (usize, usize, u16) = (kani::any(), kani::any(), kani::any());
        let mut want = Text::new(at);
        want.number(v);
        let mut sink = Sink::new(at, takes);
        let r = write_u16(&mut sink, v);
        judge(at, want, sink, r);
    });

    lemma!(#[kani::stub(write_ascii_byte, shogi_core::common::write_ascii_byte)] ascii_byte, {
        let (at, takes, b): (usize, usize, u8) = (kani::any(), kani::any(), kani::any());
        kani::assume(b < 128);
        let mut want = Text::new(at);
        want.push(b);
        let mut sink = Sink::new(at, takes);
        let r = unsafe { write_ascii_byte(&mut sink, b) };
        judge(at, want, sink, r);
    });
}

/// The owned text is the streamed text, whatever that is: here `to_sfen` writes an arbitrary text,
/// in two pieces.
pub mod owned {
    use super::*;

    const MAX: usize = 200;
    static mut TEXT: [u8; MAX] = [0; MAX];
    static mut CUT: (usize, usize) = (0, 0);
    static mut WRITTEN: u8 = 0;
    static mut OF: *const PartialPosition = core::ptr::null();

    fn to_sfen<W: core::fmt::Write>(this: &PartialPosition, sink: &mut W) -> core::fmt::Result {
        unsafe {
            let (a, b) = CUT;
            WRITTEN += 1;
            OF = this;
            sink.write_str(core::str::from_utf8_unchecked(&*core::ptr::slice_from_raw_parts(&raw const TEXT as *const u8, a)))?;
            sink.write_str(core::str::from_utf8_unchecked(&*core::ptr::slice_from_raw_parts((&raw const TEXT as *const u8).add(a), b - a)))
        }
    }

    unsafe fn arbitrary_text() {
        TEXT = kani::any();
        CUT = (kani::any(), kani::any());
        kani::assume(CUT.0 <= CUT.1 && CUT.1 <= MAX);
    }

    unsafe fn judge(p: &PartialPosition, s: alloc::string::String) {
        let at: usize = kani::any();
        if WRITTEN != 0 {
            assert!(WRITTEN == 1 && OF == p as *const PartialPosition, "the text is written once, for this position");
            assert!(s.len() == CUT.1, "the owned text is as long as the streamed text");
            assert!(at >= s.len() || s.as_bytes()[at] == TEXT[at], "the owned text is the streamed text");
        }
        core::mem::forget(s);
    }

    lemma!(#[kani::stub(shogi_core::PartialPosition::to_sfen, to_sfen)] owned, {
        let p: PartialPosition = kani::any();
        unsafe {
            arbitrary_text();
            judge(&p, p.to_sfen_owned());
        }
    });

    lemma!(#[kani::stub(shogi_core::PartialPosition::to_sfen, to_sfen)] owned_with_history, {
        let p: Position = kani::bounded_any::<Position, 1>();
        unsafe {
            arbitrary_text();
            judge(p.inner(), p.to_sfen_owned());
        }
        core::mem::forget(p);
    });
}
