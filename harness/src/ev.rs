//! Events: the tree, flattened in the order the grammar puts its parts into the text.
use alloc::vec::Vec;
use sql_parse::{Identifier, OptSpanned, SString, Span, Spanned};

pub const ENTER: u8 = 1; // node `tag` with span() a..b
pub const EXIT: u8 = 2;
pub const KW: u8 = 3; // words (pattern p,n) at a..b
pub const HERE: u8 = 4; // words the tree implies but has no span for
pub const OPT: u8 = 5; // words that may be here
pub const ID: u8 = 6; // a name with value p,n at a..b
pub const STR: u8 = 7; // a string literal with value p,n
pub const INT: u8 = 8; // x
pub const FLOAT: u8 = 9; // x are the bits
pub const ARG: u8 = 10; // placeholder number x
pub const LIST: u8 = 11; // _LIST_ placeholder number x
pub const RAW: u8 = 12; // data lines p,n at a..b
pub const BODY: u8 = 13; // a $$ body the tree does not describe
pub const NUM2: u8 = 14; // (x,y) at a..b, y in n
pub const STMT: u8 = 16; // a top level statement starts
pub const SEMIS: u8 = 17; // any number of ; may be here
pub const IVAL: u8 = 18; // the value of an interval at a..b: p,n are i64s
pub const ANY: u8 = 19; // any one word at a..b
pub const SPAN: u8 = 20; // some span that only has to be aligned
pub const ERRN: u8 = 21; // a node that stands for something that failed to parse
pub const GROUP: u8 = 22; // what follows is in parentheses of its own (`x`: what it is)
pub const UNGROUP: u8 = 23;

#[derive(Clone, Copy)]
pub struct Ev {
    pub k: u8,
    pub tag: u16,
    pub a: usize,
    pub b: usize,
    pub p: *const u8,
    pub n: usize,
    pub x: u64,
}

pub struct W {
    pub ev: Vec<Ev>,
    /// dialect: 0 MariaDB, 1 PostgreSQL, 2 SQLite
    pub dialect: usize,
    /// say what is in parentheses of its own
    pub groups: bool,
}

const NUL: *const u8 = core::ptr::null();

impl W {
    pub fn new(dialect: usize) -> Self {
        W { ev: Vec::with_capacity(128), dialect, groups: crate::rt::param(0) == 36 }
    }
    fn push(&mut self, k: u8, tag: u16, s: &Span, p: *const u8, n: usize, x: u64) {
        self.ev.push(Ev { k, tag, a: s.start, b: s.end, p, n, x });
    }
    pub fn enter(&mut self, tag: u16, s: Span) {
        self.push(ENTER, tag, &s, NUL, 0, 0)
    }
    /// Enter an operator's node; `x` is how tight it binds.
    pub fn enter_op(&mut self, tag: u16, s: Span, x: u64) {
        self.push(ENTER, tag, &s, NUL, 0, x)
    }
    /// Enter a node that has no span of its own.
    pub fn enter0(&mut self, tag: u16) {
        self.push(ENTER, tag, &(usize::MAX..0), NUL, 0, 0)
    }
    pub fn enter_opt(&mut self, tag: u16, s: &impl OptSpanned) {
        match s.opt_span() {
            Some(s) => self.enter(tag, s),
            None => self.enter0(tag),
        }
    }
    pub fn node(&mut self, tag: u16, s: &impl Spanned) {
        self.enter(tag, s.span())
    }
    pub fn exit(&mut self, tag: u16) {
        self.push(EXIT, tag, &(0..0), NUL, 0, 0)
    }
    pub fn kw(&mut self, words: &'static str, s: &Span) {
        self.push(KW, 0, s, words.as_ptr(), words.len(), 0)
    }
    pub fn kw_opt(&mut self, words: &'static str, s: &Option<Span>) {
        if let Some(s) = s {
            self.kw(words, s)
        }
    }
    pub fn here(&mut self, words: &'static str) {
        self.push(HERE, 0, &(0..0), words.as_ptr(), words.len(), 0)
    }
    pub fn opt(&mut self, words: &'static str) {
        self.push(OPT, 0, &(0..0), words.as_ptr(), words.len(), 0)
    }
    /// The comma before every part of a list but the first.
    pub fn sep(&mut self, i: usize) {
        if i > 0 {
            self.here(",")
        }
    }
    pub fn id(&mut self, i: &Identifier) {
        self.push(ID, 0, &i.span, i.value.as_ptr(), i.value.len(), 0)
    }
    pub fn name(&mut self, v: &str, s: &Span) {
        self.push(ID, 1, s, v.as_ptr(), v.len(), 0)
    }
    pub fn str(&mut self, s: &SString) {
        let v = s.as_str();
        self.push(STR, 0, &s.span, v.as_ptr(), v.len(), 0)
    }
    pub fn int(&mut self, x: u64, s: &Span) {
        self.push(INT, 0, s, NUL, 0, x)
    }
    pub fn float(&mut self, x: f64, s: &Span) {
        self.push(FLOAT, 0, s, NUL, 0, x.to_bits())
    }
    pub fn arg(&mut self, x: usize, s: &Span) {
        self.push(ARG, 0, s, NUL, 0, x as u64)
    }
    pub fn list(&mut self, x: usize, s: &Span) {
        self.push(LIST, 0, s, NUL, 0, x as u64)
    }
    pub fn raw(&mut self, v: &str, s: &Span) {
        self.push(RAW, 0, s, v.as_ptr(), v.len(), 0)
    }
    pub fn body(&mut self) {
        self.push(BODY, 0, &(0..0), NUL, 0, 0)
    }
    pub fn num2(&mut self, x: usize, y: usize, s: &Span) {
        self.push(NUM2, 0, s, NUL, y, x as u64)
    }
    pub fn stmt(&mut self) {
        self.push(STMT, 0, &(0..0), NUL, 0, 0)
    }
    pub fn semis(&mut self) {
        self.push(SEMIS, 0, &(0..0), NUL, 0, 0)
    }
    pub fn ival(&mut self, v: &[i64], s: &Span) {
        self.push(IVAL, 0, s, v.as_ptr() as *const u8, v.len(), 0)
    }
    pub fn any(&mut self, s: &Span) {
        self.push(ANY, 0, s, NUL, 0, 0)
    }
    pub fn group(&mut self, what: u64) {
        if self.groups {
            self.push(GROUP, 0, &(0..0), NUL, 0, what)
        }
    }
    pub fn ungroup(&mut self) {
        if self.groups {
            self.push(UNGROUP, 0, &(0..0), NUL, 0, 0)
        }
    }
    pub fn errn(&mut self, s: &Span) {
        self.push(ERRN, 0, s, NUL, 0, 0)
    }
}
