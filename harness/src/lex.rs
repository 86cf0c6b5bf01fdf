//! A lexer of the harness' own, written from the lexical rules of SQL and not from the code in
//! /repo. It is the reference the parser's spans, names and literals are compared with.
use alloc::vec::Vec;

pub const WORD: u8 = 1;
pub const QIDENT: u8 = 2;
pub const INT: u8 = 3;
pub const FLOAT: u8 = 4;
pub const SQ: u8 = 5;
pub const DQ: u8 = 6;
pub const PUNCT: u8 = 7;
pub const BAD: u8 = 8;
pub const DARG: u8 = 9;
pub const NOSLOT: usize = usize::MAX;

#[derive(Clone, Copy)]
pub struct Tok {
    k: u8,
    pub a: usize,
    pub b: usize,
    h: u64,
    pub slot: usize,
}

/// The letters in capitals, packed, for up to eight bytes: with symbolic bytes a comparison with
/// a constant falls apart into one for each byte.
pub const fn hash_byte(h: u64, i: usize, c: u8) -> u64 {
    let c = if c >= b'a' && c <= b'z' { c - 32 } else { c };
    if i < 8 {
        h | (c as u64) << (8 * i)
    } else {
        (h ^ (c as u64) << (i % 8)).wrapping_mul(0x100000001b3) | 1 << 63
    }
}
pub const fn hash(s: &[u8]) -> u64 {
    let mut h = 0;
    let mut i = 0;
    while i < s.len() {
        h = hash_byte(h, i, s[i]);
        i += 1;
    }
    h
}

fn word_byte(c: u8) -> bool {
    c == b'_' || c.is_ascii_alphanumeric()
}

/// Length and kind of the token at the start of `s`; no white space or comment is there.
/// A token that is not terminated takes all that is left.
fn one(s: &[u8]) -> (usize, u8) {
    let c = s[0];
    let at = |i: usize| if i < s.len() { s[i] } else { 0 };
    match c {
        b'_' | b'a'..=b'z' | b'A'..=b'Z' => {
            let mut i = 1;
            while i < s.len() && word_byte(s[i]) {
                i += 1;
            }
            (i, WORD)
        }
        b'0'..=b'9' => {
            let mut i = 1;
            while at(i).is_ascii_digit() {
                i += 1;
            }
            if at(i) == b'.' {
                i += 1;
                while at(i).is_ascii_digit() {
                    i += 1;
                }
                (i, FLOAT)
            } else {
                (i, INT)
            }
        }
        b'.' if at(1).is_ascii_digit() => {
            let mut i = 2;
            while at(i).is_ascii_digit() {
                i += 1;
            }
            (i, FLOAT)
        }
        b'\'' | b'"' => {
            let mut i = 1;
            loop {
                if i >= s.len() {
                    return (s.len(), BAD);
                }
                if s[i] == b'\\' {
                    // the next character, whatever its length, is part of the string
                    i += 2;
                } else if s[i] == c {
                    if at(i + 1) == c {
                        i += 2;
                    } else {
                        return (i + 1, if c == b'\'' { SQ } else { DQ });
                    }
                } else {
                    i += 1;
                }
            }
        }
        b'`' => {
            let mut i = 1;
            while word_byte(at(i)) || at(i) == b'-' {
                i += 1;
            }
            if at(i) == b'`' {
                (i + 1, QIDENT)
            } else {
                (i, BAD)
            }
        }
        b'$' => match at(1) {
            b'$' => (2, PUNCT),
            b'1'..=b'9' => {
                let mut i = 2;
                while at(i).is_ascii_digit() {
                    i += 1;
                }
                (i, DARG)
            }
            _ => (1, BAD),
        },
        b'@' if at(1) == b'@' => {
            let u = |i: usize, w: &[u8]| {
                let mut j = 0;
                while j < w.len() {
                    if at(i + j).to_ascii_uppercase() != w[j] {
                        return false;
                    }
                    j += 1;
                }
                true
            };
            if u(2, b"GLOBAL") {
                (8, PUNCT)
            } else if u(2, b"SESSION") {
                (9, PUNCT)
            } else {
                (2, BAD)
            }
        }
        b'%' => (if at(1) == b's' { 2 } else { 1 }, PUNCT),
        b'<' => (
            match (at(1), at(2)) {
                (b'=', b'>') => 3,
                (b'=' | b'>' | b'<', _) => 2,
                _ => 1,
            },
            PUNCT,
        ),
        b'>' => (if matches!(at(1), b'=' | b'>') { 2 } else { 1 }, PUNCT),
        b'!' => (if matches!(at(1), b'=' | b'!') { 2 } else { 1 }, PUNCT),
        b'=' => (if at(1) == b'>' { 2 } else { 1 }, PUNCT),
        b'&' | b'|' | b':' => (if at(1) == c { 2 } else { 1 }, PUNCT),
        b'?' | b';' | b'\\' | b'[' | b']' | b'^' | b'{' | b'}' | b'(' | b')' | b',' | b'+' | b'*' | b'#' | b'@' | b'~' | b'-' | b'/' | b'.' => (1, PUNCT),
        _ => {
            // one character that is not part of any token
            let mut i = 1;
            while at(i) & 0xc0 == 0x80 {
                i += 1;
            }
            (i, BAD)
        }
    }
}

/// End of the white space and comments at the start of `s`, or None for a comment that is not
/// terminated.
pub fn blank(s: &[u8]) -> Option<usize> {
    let mut i = 0;
    let at = |i: usize| if i < s.len() { s[i] } else { 0 };
    while i < s.len() {
        match s[i] {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'-' if at(i + 1) == b'-' => {
                while i < s.len() && s[i] != b'\n' && s[i] != b'\r' {
                    i += 1;
                }
            }
            b'/' if at(i + 1) == b'/' => {
                while i < s.len() && s[i] != b'\n' && s[i] != b'\r' {
                    i += 1;
                }
            }
            b'/' if at(i + 1) == b'*' => {
                i += 2;
                loop {
                    if i + 1 >= s.len() {
                        return None;
                    }
                    if s[i] == b'*' && s[i + 1] == b'/' {
                        i += 2;
                        break;
                    }
                    i += 1;
                }
            }
            _ => break,
        }
    }
    Some(i)
}

/// All tokens of `s`. `skip` are regions that are data and not tokens, in order.
pub fn tokens(s: &[u8], skip: &[(usize, usize)]) -> Vec<Tok> {
    let mut v = Vec::new();
    let mut i = 0;
    let mut k = 0;
    loop {
        let e = if k < skip.len() { skip[k].0 } else { s.len() };
        let part = &s[..e];
        while i < e {
            match blank(&part[i..]) {
                None => {
                    v.push(Tok { k: BAD, a: i, b: e, h: 0, slot: NOSLOT });
                    i = e;
                }
                Some(n) => i += n,
            }
            if i >= e {
                break;
            }
            if part[i] == 1 && i + 3 <= e {
                let idx = ((part[i + 1] & 63) as usize) << 6 | (part[i + 2] & 63) as usize;
                v.push(Tok { k: 0, a: i, b: i + 3, h: 0, slot: idx });
                i += 3;
                continue;
            }
            let (n, kind) = one(&part[i..]);
            let h = if kind == WORD || kind == PUNCT { hash(&part[i..i + n]) } else { 0 };
            v.push(Tok { k: kind, a: i, b: i + n, h, slot: NOSLOT });
            i += n;
        }
        if k >= skip.len() {
            return v;
        }
        i = skip[k].1;
        k += 1;
    }
}

// What a slot stands for, as tables over the slot's number.
#[inline(never)]
fn slotmerge_kind(idx: usize) -> u64 {
    let t = sql_parse::verif::slot_text(idx).as_bytes();
    one(t).1 as u64
}
#[inline(never)]
fn slotmerge_hash(idx: usize) -> u64 {
    let t = sql_parse::verif::slot_text(idx).as_bytes();
    let k = one(t).1;
    if k == WORD || k == PUNCT {
        hash(t)
    } else {
        0
    }
}
#[inline(never)]
fn slotmerge_ptr(idx: usize) -> u64 {
    sql_parse::verif::slot_text(idx).as_ptr() as u64
}
#[inline(never)]
fn slotmerge_len(idx: usize) -> u64 {
    sql_parse::verif::slot_text(idx).len() as u64
}
/// 1 if the text has no small letter
#[inline(never)]
fn slotmerge_caps(idx: usize) -> u64 {
    let t = sql_parse::verif::slot_text(idx).as_bytes();
    let mut i = 0;
    while i < t.len() {
        if t[i].is_ascii_lowercase() {
            return 0;
        }
        i += 1;
    }
    1
}

impl Tok {
    pub fn kind(&self) -> u8 {
        if self.slot == NOSLOT {
            self.k
        } else {
            slotmerge_kind(self.slot) as u8
        }
    }
    pub fn hash(&self) -> u64 {
        if self.slot == NOSLOT {
            self.h
        } else {
            slotmerge_hash(self.slot)
        }
    }
    /// Address and length of the token's text.
    pub fn text(&self, src: &[u8]) -> (usize, usize) {
        if self.slot == NOSLOT {
            (src.as_ptr() as usize + self.a, self.b - self.a)
        } else {
            (slotmerge_ptr(self.slot) as usize, slotmerge_len(self.slot) as usize)
        }
    }
    pub fn bytes<'a>(&self, src: &'a [u8]) -> &'a [u8] {
        let (p, n) = self.text(src);
        unsafe { core::slice::from_raw_parts(p as *const u8, n) }
    }
    pub fn caps(&self, src: &[u8]) -> bool {
        if self.slot == NOSLOT {
            !src[self.a..self.b].iter().any(|c| c.is_ascii_lowercase())
        } else {
            slotmerge_caps(self.slot) != 0
        }
    }
    pub fn is(&self, h: u64) -> bool {
        self.hash() == h
    }
}
