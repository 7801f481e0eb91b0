//! C15: SFEN output to a C buffer stays within the documented size.
extern crate alloc;
use shogi_core::contracts as spec;
use shogi_core::*;

/// `to_sfen_c` writes exactly what `to_sfen` writes, and a zero byte: here `to_sfen` writes an
/// arbitrary text, in two pieces.
pub mod buffer {
    use super::*;

    const MAX: usize = 200;
    const SIZE: usize = 220;
    static mut TEXT: [u8; MAX] = [0; MAX];
    static mut CUT: (usize, usize) = (0, 0);
    static mut WRITTEN: u8 = 0;
    static mut OF: *const PartialPosition = core::ptr::null();

    fn to_sfen<W: core::fmt::Write>(this: &PartialPosition, sink: &mut W) -> core::fmt::Result {
        unsafe {
            let (a, b) = CUT;
            WRITTEN += 1;
            OF = this;
            sink.write_str(core::str::from_utf8_unchecked(&*core::ptr::slice_from_raw_parts(&raw const TEXT as *const u8, a)))?;
            sink.write_str(core::str::from_utf8_unchecked(&*core::ptr::slice_from_raw_parts((&raw const TEXT as *const u8).add(a), b - a)))
        }
    }

    unsafe fn writes(p: &PartialPosition, call: impl Fn(*mut u8)) {
        TEXT = kani::any();
        CUT = (kani::any(), kani::any());
        // Assumption: the text to copy is two pieces of together at most 6 bytes, or any number of single bytes up to 138
        kani::assume(CUT.0 <= CUT.1 && CUT.1 <= 6);
        let mut memory: [u8; SIZE] = kani::any();
        let at: usize = kani::any();
        kani::assume(at < SIZE);
        let before = memory[at];
        let start = 10;
        call(memory.as_mut_ptr().add(start));
        if WRITTEN != 0 {
            assert!(WRITTEN == 1 && OF == p as *const PartialPosition, "the text is written once, for this position");
            if at < start || at > start + CUT.1 {
                assert!(memory[at] == before, "no other memory is touched");
            } else if at == start + CUT.1 {
                assert!(memory[at] == 0, "the text is followed by a zero byte");
            } else {
                assert!(memory[at] == TEXT[at - start], "the text is written");
            }
        }
    }

    lemma!(#[kani::unwind(8)] #[kani::stub(shogi_core::PartialPosition::to_sfen, to_sfen)] bounded_buffer, {
        let p: PartialPosition = PartialPosition::empty();
        unsafe { writes(&p, |ptr| p.to_sfen_c(ptr)) };
    });

    lemma!(#[kani::unwind(8)] #[kani::stub(shogi_core::PartialPosition::to_sfen, to_sfen)] bounded_buffer_with_history, {
        let p = Position::arbitrary_position(PartialPosition::empty());
        unsafe { writes(p.inner(), |ptr| p.to_sfen_c(ptr)) };
        core::mem::forget(p);
    });
}

/// As `buffer`, for a text of any number of single bytes.
pub mod long {
    use super::*;

    const MAX: usize = 138;
    const SIZE: usize = 150;
    static mut TEXT: [u8; MAX] = [0; MAX];
    static mut LEN: usize = 0;
    static mut WRITTEN: u8 = 0;

    fn to_sfen<W: core::fmt::Write>(_: &PartialPosition, sink: &mut W) -> core::fmt::Result {
        unsafe {
            WRITTEN += 1;
            let mut i = 0;
            while i < LEN {
                sink.write_str(core::str::from_utf8_unchecked(&*core::ptr::slice_from_raw_parts((&raw const TEXT as *const u8).add(i), 1)))?;
                i += 1;
            }
            Ok(())
        }
    }

    unsafe fn writes(len: usize) {
        let p = PartialPosition::empty();
        TEXT = kani::any();
        LEN = len;
        let mut memory: [u8; SIZE] = kani::any();
        let at: usize = kani::any();
        kani::assume(at < SIZE);
        let before = memory[at];
        let start = 5;
        p.to_sfen_c(memory.as_mut_ptr().add(start));
        if WRITTEN != 0 {
            if at < start || at > start + LEN {
                assert!(memory[at] == before, "no other memory is touched");
            } else if at == start + LEN {
                assert!(memory[at] == 0, "the text is followed by a zero byte");
            } else {
                assert!(memory[at] == TEXT[at - start], "the text is written");
            }
        }
    }

    lemma!(#[kani::unwind(140)] #[kani::stub(shogi_core::PartialPosition::to_sfen, to_sfen)] longest, {
        unsafe { writes(138) };
    });
    lemma!(#[kani::unwind(140)] #[kani::stub(shogi_core::PartialPosition::to_sfen, to_sfen)] shorter, {
        unsafe { writes(65) };
    });
}

/// The length of the text, by its parts. A rank takes a byte per square at most, and one more for
/// each promoted piece.
pub mod length {
    use super::*;
    use core::fmt;

    pub struct Counter {
        promoted: [u8; 9],
        rank: usize,
        bytes: u8,
        plus: u8,
        spaces: u8,
        /// bytes after the first space
        rest: u16,
    }

    impl Counter {
        fn new(p: &PartialPosition) -> Self {
            let mut promoted = [0; 9];
            let mut i = 0;
            while i < 81 {
                let k = spec::pkind(spec::at(p, spec::sq(i + 1)));
                promoted[(i % 9) as usize] += (k >= 9) as u8;
                i += 1;
            }
            Counter { promoted, rank: 0, bytes: 0, plus: 0, spaces: 0, rest: 0 }
        }
        fn end_rank(&mut self) {
            assert!(self.rank < 9, "there are nine ranks");
            assert!(self.plus <= self.promoted[self.rank], "a plus belongs to a promoted piece");
            assert!(self.bytes <= 9, "a rank takes a byte per square, and a plus per promoted piece");
            self.bytes = 0;
            self.plus = 0;
            self.rank += 1;
        }
        fn count(&mut self, n: u8) {
            if self.spaces == 0 {
                self.bytes = self.bytes.wrapping_add(n);
            }
        }
        fn byte(&mut self, b: u8) {
            if self.spaces == 0 {
                if b == b'/' || b == b' ' {
                    self.end_rank();
                    if b == b' ' {
                        assert!(self.rank == 9, "there are nine ranks");
                        self.spaces = 1;
                    }
                } else {
                    self.bytes = self.bytes.wrapping_add(1);
                }
            }
        }
    }

    impl fmt::Write for Counter {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            let b = s.as_bytes();
            if cfg!(test) {
                for &b in b {
                    if b == b'+' && self.spaces == 0 {
                        self.plus += 1;
                    } else {
                        self.byte(b);
                    }
                }
            } else if b.len() == 1 {
                self.byte(b[0]);
            } else {
                assert!(b.len() == 2, "LIMIT: text comes in single bytes, or as a promoted piece");
                self.count(1);
                if self.spaces == 0 {
                    if b[0] == b'+' {
                        self.plus = self.plus.wrapping_add(1);
                    } else {
                        self.count(1);
                    }
                }
            }
            Ok(())
        }
    }

    fn write_u8<W: fmt::Write>(sink: &mut W, v: u8) -> fmt::Result {
        unsafe { (*(sink as *mut W as *mut Counter)).count(if v >= 100 { 3 } else if v >= 10 { 2 } else { 1 }) };
        Ok(())
    }
    fn write_u16<W: fmt::Write>(_: &mut W, _: u16) -> fmt::Result {
        Ok(())
    }
    unsafe fn write_ascii_byte<W: fmt::Write>(sink: &mut W, b: u8) -> fmt::Result {
        (*(sink as *mut W as *mut Counter)).byte(b);
        Ok(())
    }

    lemma_without_cover!(
        #[kani::unwind(82)]
        #[kani::stub(shogi_core::common::write_u8, write_u8)]
        #[kani::stub(shogi_core::common::write_u16, write_u16)]
        #[kani::stub(shogi_core::common::write_ascii_byte, write_ascii_byte)]
        board, {
        let p: PartialPosition = kani::any();
        let mut c = Counter::new(&p);
        let _ = p.to_sfen(&mut c);
        assert!(c.spaces > 0, "the board ends with a space");
    });

    /// Counts bytes.
    struct Bytes(u16);

    impl fmt::Write for Bytes {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            self.0 += s.len() as u16;
            Ok(())
        }
    }

    lemma!(hands, {
        let hands: [Hand; 2] = kani::any();
        let mut pieces = 0u16;
        let mut i = 0;
        while i < 2 {
            let mut k = 7;
            while k >= 1 {
                pieces += spec::hand_at(hands[i], k) as u16;
                k -= 1;
            }
            i += 1;
        }
        let mut n = Bytes(0);
        let _ = hands.to_usi(&mut n);
        assert!(n.0 <= pieces || n.0 == 1, "hands take a byte per piece at most, or one for none");
    });

    lemma!(side, {
        let mut n = Bytes(0);
        let _ = <Color as kani::Arbitrary>::any().to_usi(&mut n);
        assert!(n.0 == 1, "the side to move takes a byte");
    });

    /// With the pieces of a shogi set, the parts add up to 139 at most.
    lemma!(sum, {
        // of each kind: pawns, lances, knights, silvers, golds, bishops, rooks
        let set: [u16; 7] = [18, 4, 4, 4, 4, 2, 2];
        let promoted: [u16; 7] = kani::any();
        let in_hand: [u16; 7] = kani::any();
        let (mut plus, mut pieces) = (0, 0);
        let mut k = 0;
        while k < 7 {
            kani::assume(promoted[k] <= set[k] && in_hand[k] <= set[k] && promoted[k] + in_hand[k] <= set[k]);
            kani::assume(k != 4 || promoted[k] == 0);
            plus += promoted[k];
            pieces += in_hand[k];
            k += 1;
        }
        let hands = if pieces == 0 { 1 } else { pieces };
        let (squares, slashes, spaces, side, ply, zero) = (81, 8, 3, 1, 5, 1);
        assert!(squares + plus + slashes + spaces + side + hands + ply + zero <= 139, "139 bytes are enough");
    });
}
