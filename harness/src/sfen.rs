//! A reader of SFEN text that judges every byte as it comes, for one arbitrary square and one
//! arbitrary kind in one hand. Text that it accepts for every choice of those is exactly the text
//! of the position.
use core::fmt;
use shogi_core::contracts as spec;
use shogi_core::*;

/// letter & 31 -> kind without promotion
const KIND: [u8; 32] = {
    let mut t = [0u8; 32];
    let s = b"plnsgbrk";
    let mut i = 0;
    while i < 8 {
        t[(s[i] & 31) as usize] = i as u8 + 1;
        i += 1;
    }
    t
};

/// Reads the board (`PART` 1), the rest (`PART` 2), or everything.
pub struct Reader<const PART: u8> {
    // what is expected
    q: u8,
    want: u8,
    side: u8,
    hand: u8,
    hand_kind: u8,
    hand_count: u8,
    no_hands: bool,
    ply: u16,
    // board
    pos: u8,
    rank: u8,
    digit: bool,
    plus: bool,
    // side, hands
    sides: u8,
    last: u8,
    seen: bool,
    dash: bool,
    // a number so far
    number: u32,
    digits: u8,
    pub spaces: u8,
}

impl<const PART: u8> Reader<PART> {
    /// For squares in the order of the text (0..81), and a hand (0: black) and kind (1..=7).
    pub fn new(p: &PartialPosition, q: u8, hand: u8, hand_kind: u8) -> Self {
        let hands = [p.hand_of_a_player(Color::Black), p.hand_of_a_player(Color::White)];
        Reader {
            q,
            want: spec::at(p, spec::sq((8 - q % 9) * 9 + q / 9 + 1)),
            side: spec::raw8(p.side_to_move()),
            hand,
            hand_kind,
            hand_count: spec::hand_at(hands[hand as usize], hand_kind),
            no_hands: spec::hand_raw(hands[0]) == 0 && spec::hand_raw(hands[1]) == 0,
            ply: p.ply(),
            pos: 0,
            rank: 0,
            digit: false,
            plus: false,
            sides: 0,
            last: 0,
            seen: false,
            dash: false,
            number: 0,
            digits: 0,
            spaces: 0,
        }
    }

    fn skips(&self) -> bool {
        PART == 1 && self.spaces > 0 || PART == 2 && self.spaces == 0
    }

    fn on_board(&self) -> bool {
        PART == 1 || PART != 2 && self.spaces == 0
    }

    /// A whole number at once.
    pub fn num(&mut self, v: u16) {
        if self.skips() {
            return;
        }
        if self.on_board() {
            let v = v as u8;
            let end = self.pos.wrapping_add(v);
            assert!(
                (v >= 1) & (v <= 9) & !self.digit & !self.plus & (end <= self.rank.wrapping_mul(9).wrapping_add(9))
                    & ((self.want == 0) | (self.pos > self.q) | (self.q >= end)),
                "a digit counts vacant squares"
            );
            self.pos = end;
            self.digit = true;
        } else {
            assert!((self.spaces >= 2) & (self.digits == 0), "a number stands for a count or the ply");
            self.number = v as u32;
            self.digits = 5;
        }
    }

    fn one_digit(&mut self, d: u8) {
        if self.on_board() {
            self.num(d as u16);
        } else {
            assert!(
                (self.spaces >= 2) & (self.digits < 5) & ((self.digits == 0) | (self.number != 0)),
                "a number has no leading zeros"
            );
            self.number = (self.number << 3).wrapping_add(self.number << 1).wrapping_add(d as u32);
            self.digits = self.digits.wrapping_add(1);
        }
    }

    fn space(&mut self) {
        if self.on_board() {
            self.end_rank();
            assert!(self.rank == 9, "there are nine ranks");
        } else if self.spaces == 1 {
            assert!(self.sides == 1, "there is one side to move");
        } else {
            assert!(
                (self.spaces == 2) & (self.digits == 0) & (self.seen == (self.hand_count > 0))
                    & (self.dash == self.no_hands) & ((self.last != 0) | self.dash),
                "hands"
            );
        }
        self.spaces = self.spaces.wrapping_add(1);
    }

    fn end_rank(&mut self) {
        self.rank = self.rank.wrapping_add(1);
        assert!(!self.plus & (self.pos == self.rank.wrapping_mul(9)), "a rank has nine squares");
        self.pos = self.rank.wrapping_mul(9);
        self.digit = false;
    }

    fn slash(&mut self) {
        assert!((self.spaces == 0) & (self.rank < 8), "a slash is between ranks");
        self.end_rank();
    }

    fn letter(&mut self, b: u8, plus: bool) {
        if self.skips() {
            return;
        }
        let k = KIND[(b & 31) as usize];
        let white = b & 32 != 0;
        assert!(b & 192 == 64, "a letter");
        if self.on_board() {
            let code = k
                .wrapping_add(if plus { if k <= 4 { 8 } else { 7 } } else { 0 })
                .wrapping_add(if white { 16 } else { 0 });
            assert!(
                (k != 0) & !(plus & ((k == 5) | (k == 8)))
                    & ((self.pos != self.q) | (self.want == code))
                    & (self.pos < self.rank.wrapping_mul(9).wrapping_add(9)),
                "the piece on the square"
            );
            self.pos = self.pos.wrapping_add(1);
            self.plus = false;
            self.digit = false;
        } else if self.spaces == 1 {
            assert!(
                !plus & (self.sides == 0) & (b == if self.side == 1 { b'b' } else { b'w' }),
                "the side to move"
            );
            self.sides = self.sides.wrapping_add(1);
        } else {
            let place = if white { 8u8 } else { 0 }.wrapping_add(8u8.wrapping_sub(k));
            let mine = (k == self.hand_kind) & (white as u8 == self.hand);
            assert!(
                !plus & (self.spaces == 2) & (k >= 1) & (k <= 7) & (place > self.last) & !self.dash
                    & ((self.digits == 0) | (self.number >= 2))
                    & (!mine | (self.hand_count as u32 == if self.digits == 0 { 1 } else { self.number })),
                "the pieces in hand"
            );
            self.seen |= mine;
            self.last = place;
            self.digits = 0;
            self.number = 0;
        }
    }

    pub fn byte(&mut self, b: u8) {
        if self.skips() {
            if PART == 2 && b == b' ' {
                self.spaces = 1;
            }
            return;
        }
        if b == b'/' && PART != 2 {
            self.slash();
        } else if b == b' ' {
            self.space();
        } else if b.wrapping_sub(b'0') <= 9 {
            self.one_digit(b.wrapping_sub(b'0'));
        } else if b == b'+' {
            assert!((self.spaces == 0) & !self.plus, "a plus is before a piece");
            self.plus = true;
        } else if b == b'-' && PART != 1 {
            assert!((self.spaces == 2) & !self.dash & (self.last == 0) & (self.digits == 0), "a dash is for empty hands");
            self.dash = true;
        } else {
            let plus = self.plus;
            self.letter(b, plus);
        }
    }

    pub fn finish(&self) {
        if PART == 1 {
            assert!(self.spaces > 0, "the board ends with a space");
            return;
        }
        assert!((self.spaces == 3) & (self.digits > 0) & (self.number == self.ply as u32), "the text ends with the ply");
    }
}

impl<const PART: u8> fmt::Write for Reader<PART> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if cfg!(test) {
            for &b in b {
                self.byte(b);
            }
        } else if b.len() == 1 {
            self.byte(b[0]);
        } else {
            assert!(b.len() == 2 && b[0] == b'+', "LIMIT: text comes in single bytes, or as a promoted piece");
            assert!((self.spaces == 0) & !self.plus | self.skips(), "a plus is before a piece");
            self.letter(b[1], true);
        }
        Ok(())
    }
}

/// `common`'s functions, as far as a `Reader` can tell.
macro_rules! stubs {
    ($module:ident, $part:literal) => {
        pub mod $module {
            use super::*;
            pub fn write_u8<W: fmt::Write>(sink: &mut W, value: u8) -> fmt::Result {
                unsafe { (*(sink as *mut W as *mut Reader<$part>)).num(value as u16) };
                Ok(())
            }
            pub fn write_u16<W: fmt::Write>(sink: &mut W, value: u16) -> fmt::Result {
                unsafe { (*(sink as *mut W as *mut Reader<$part>)).num(value) };
                Ok(())
            }
            pub unsafe fn write_ascii_byte<W: fmt::Write>(sink: &mut W, byte: u8) -> fmt::Result {
                (*(sink as *mut W as *mut Reader<$part>)).byte(byte);
                Ok(())
            }
        }
    };
}
stubs!(board, 1);
stubs!(tail, 2);

/// A sink that fails whenever it likes, and notes whether anything is written after that.
pub struct Failing {
    pub failed: bool,
    pub after: bool,
}

impl Failing {
    fn event(&mut self) -> fmt::Result {
        self.after |= self.failed;
        self.failed |= kani::any::<bool>();
        if self.failed {
            Err(fmt::Error)
        } else {
            Ok(())
        }
    }
}

impl fmt::Write for Failing {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        self.event()
    }
}

pub mod failing {
    use super::*;
    pub fn write_u8<W: fmt::Write>(sink: &mut W, _: u8) -> fmt::Result {
        unsafe { (*(sink as *mut W as *mut Failing)).event() }
    }
    pub fn write_u16<W: fmt::Write>(sink: &mut W, _: u16) -> fmt::Result {
        unsafe { (*(sink as *mut W as *mut Failing)).event() }
    }
    pub unsafe fn write_ascii_byte<W: fmt::Write>(sink: &mut W, _: u8) -> fmt::Result {
        unsafe { (*(sink as *mut W as *mut Failing)).event() }
    }
}
