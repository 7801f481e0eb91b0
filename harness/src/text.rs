//! Texts of any length, seen through one byte at an arbitrary place: two texts are the same if they
//! have the same length and the same byte at every place.
use core::fmt;
use shogi_core::contracts as spec;
use shogi_core::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Text {
    pub at: usize,
    pub len: usize,
    pub byte: u8,
}

impl Text {
    pub fn new(at: usize) -> Self {
        Text { at, len: 0, byte: 0 }
    }
    pub fn push(&mut self, b: u8) {
        if self.len == self.at {
            self.byte = b;
        }
        self.len += 1;
    }
    pub fn push_if(&mut self, c: bool, b: u8) {
        self.byte = if (self.len == self.at) & c { b } else { self.byte };
        self.len += c as usize;
    }
    pub fn append(&mut self, b: &[u8]) {
        if self.at >= self.len && self.at - self.len < b.len() {
            self.byte = b[self.at - self.len];
        }
        self.len += b.len();
    }
    pub fn number(&mut self, n: u16) {
        self.push_if(n >= 10000, b'0' + (n / 10000 % 10) as u8);
        self.push_if(n >= 1000, b'0' + (n / 1000 % 10) as u8);
        self.push_if(n >= 100, b'0' + (n / 100 % 10) as u8);
        self.push_if(n >= 10, b'0' + (n / 10 % 10) as u8);
        self.push_if(true, b'0' + (n % 10) as u8);
    }
}

/// A sink that takes an arbitrary number of pieces of text and then fails once. It notes whether
/// anything is written after that.
pub struct Sink {
    pub text: Text,
    pub takes: usize,
    pub failed: bool,
    pub after: bool,
}

impl Sink {
    pub fn new(at: usize, takes: usize) -> Self {
        Sink { text: Text::new(at), takes, failed: false, after: false }
    }
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.after |= self.failed;
        if !self.failed && self.takes == 0 {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.takes = self.takes.wrapping_sub(1);
        self.text.append(s.as_bytes());
        Ok(())
    }
}

/// The letter of a kind without promotion, for the side it belongs to.
fn letter(k: u8, white: bool) -> u8 {
    let b = match k {
        1 | 9 => b'P',
        2 | 10 => b'L',
        3 | 11 => b'N',
        4 | 12 => b'S',
        5 => b'G',
        6 | 13 => b'B',
        7 | 14 => b'R',
        _ => b'K',
    };
    if white {
        b + 32
    } else {
        b
    }
}

pub fn kind_text(t: &mut Text, k: u8, white: bool) {
    t.push_if(k >= 9, b'+');
    t.push_if(true, letter(k, white));
}

pub fn square_text(t: &mut Text, s: Square) {
    let code = spec::raw8(s);
    t.push(b'0' + spec::file_of(code));
    t.push(b'a' + spec::rank_of(code) - 1);
}

pub fn move_text(t: &mut Text, m: Move) {
    match m {
        Move::Normal { from, to, promote } => {
            square_text(t, from);
            square_text(t, to);
            t.push_if(promote, b'+');
        }
        Move::Drop { piece, to } => {
            kind_text(t, spec::pkind(spec::raw8(piece)), false);
            t.push(b'*');
            square_text(t, to);
        }
    }
}

pub fn hands_text(t: &mut Text, hands: [Hand; 2]) {
    let mut none = true;
    let mut c = 0;
    while c < 2 {
        // rook, bishop, gold, silver, knight, lance, pawn
        let mut k = 7;
        while k >= 1 {
            let n = spec::hand_at(hands[c], k);
            none &= n == 0;
            t.push_if(n >= 100, b'0' + n / 100);
            t.push_if(n >= 10, b'0' + n / 10 % 10);
            t.push_if(n >= 2, b'0' + n % 10);
            t.push_if(n >= 1, letter(k, c == 1));
            k -= 1;
        }
        c += 1;
    }
    t.push_if(none, b'-');
}
