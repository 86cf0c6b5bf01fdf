//! Compares the events of a tree with the tokens of the text.
use crate::ev::*;
use crate::lex::{self, hash, hash_byte, Tok, DARG, DQ, PUNCT, QIDENT, SQ, WORD};
use crate::rt::fail;
use crate::walk::T;
use alloc::vec::Vec;

const H_LP: u64 = hash(b"(");
const H_RP: u64 = hash(b")");
const H_SELECT: u64 = hash(b"SELECT");
const H_SEMI: u64 = hash(b";");
const H_DD: u64 = hash(b"$$");
const H_AS: u64 = hash(b"AS");
const H_DELIMITER: u64 = hash(b"DELIMITER");
const H_OR: u64 = hash(b"OR");
const H_PIPES: u64 = hash(b"||");
const H_BAR: u64 = hash(b"|");

struct Node {
    tag: u16,
    a: usize,
    b: usize,
    /// how tight the operator binds, 0 for other nodes
    prec: u64,
    /// the operator's own word has been seen
    op: bool,
}

pub struct Oracle<'s> {
    pub src: &'s [u8],
    pub t: &'s [Tok],
    /// no error was reported: the tree must say all that the text says
    pub clean: bool,
    /// the token that was set to end statements
    delim: usize,
    /// data ended, with it its statement
    after_raw: bool,
    cur: usize,
    /// a deviation was reported; the next leaf with a span says where to go on
    lost: bool,
    nodes: Vec<Node>,
    args: u64,
    /// the data regions, in order
    pub raws: &'s [(usize, usize)],
    raw: usize,
    pub multi: bool,
    /// the lists and queries that stand in parentheses: first byte, last byte, what it is
    groups: Vec<(usize, usize, u64)>,
    /// a group without its parentheses
    open: usize,
    missing: bool,
    /// the queries
    queries: Vec<(usize, usize)>,
    /// the text nothing is said about
    body: (usize, usize),
}

impl<'s> Oracle<'s> {
    pub fn new(src: &'s [u8], t: &'s [Tok], raws: &'s [(usize, usize)], clean: bool) -> Self {
        Oracle { src, t, clean, delim: usize::MAX, after_raw: false, cur: 0, lost: false, nodes: Vec::with_capacity(32), args: 0, raws, raw: 0, multi: false, groups: Vec::new(), open: 0, missing: false, queries: Vec::new(), body: (0, 0) }
    }
    fn tag(&self) -> u16 {
        match self.nodes.last() {
            Some(n) => n.tag,
            None => 0,
        }
    }
    /// Where a deviation is: the innermost node and the words before and after it.
    fn det_at(&self, i: usize) -> usize {
        let prev = if i > 0 && i <= self.t.len() { self.t[i - 1].hash() & 0xffff } else { 0 };
        let next = if i < self.t.len() { self.t[i].hash() & 0xffff } else { 0 };
        self.tag() as usize | (prev as usize) << 16 | (next as usize) << 32
    }
    fn det(&self) -> usize {
        self.det_at(self.cur)
    }
    fn is(&self, i: usize, h: u64) -> bool {
        i < self.t.len() && self.t[i].is(h)
    }
    fn is_delim(&self, i: usize) -> bool {
        if self.delim == usize::MAX {
            return self.is(i, H_SEMI);
        }
        let (x, y) = (&self.t[self.delim], &self.t[i]);
        // words in another case are another delimiter
        x.hash() == y.hash() && (x.kind() != lex::WORD || x.slot != lex::NOSLOT && x.slot == y.slot || x.bytes(self.src) == y.bytes(self.src))
    }
    fn parens(&mut self) {
        while self.is(self.cur, H_LP) || self.is(self.cur, H_RP) {
            self.cur += 1
        }
    }
    fn skip_delims(&mut self) {
        loop {
            self.parens();
            if self.cur >= self.t.len() {
                return;
            }
            if self.is_delim(self.cur) {
                self.cur += 1
            } else if self.is(self.cur, H_DELIMITER) {
                self.cur += 1;
                if self.cur < self.t.len() {
                    self.delim = self.cur;
                    self.cur += 1
                }
            } else {
                return;
            }
        }
    }
    /// Index of the first token that starts at or after `a`.
    fn at(&self, a: usize) -> usize {
        // tokens are in order and the search most often stays near the cursor
        let mut i = self.cur;
        while i > 0 && self.t[i - 1].a >= a {
            i -= 1
        }
        while i < self.t.len() && self.t[i].a < a {
            i += 1
        }
        i
    }
    fn aligned(&self, a: usize, b: usize) -> bool {
        let i = self.at(a);
        if a == b {
            return true;
        }
        if i >= self.t.len() || self.t[i].a != a {
            return false;
        }
        let mut j = i;
        while j < self.t.len() && self.t[j].b < b {
            j += 1
        }
        j < self.t.len() && self.t[j].b == b
    }
    /// Checks any span; `false` when nothing else can be said about it.
    fn span(&mut self, e: &Ev) -> bool {
        if e.a > e.b || e.b > self.src.len() {
            fail(4, 1, self.det());
            return false;
        }
        if !self.aligned(e.a, e.b) {
            fail(4, 2, self.det());
            return false;
        }
        if self.clean {
            if e.a == e.b {
                fail(4, 3, self.det());
                return false;
            }
            let mut i = self.nodes.len();
            while i > 0 {
                i -= 1;
                let n = &self.nodes[i];
                if n.a == usize::MAX {
                    continue;
                }
                if e.a < n.a || e.b > n.b {
                    // the part that sticks out, and the node that should hold it
                    let part = if e.k == ENTER { e.tag } else { e.k as u16 };
                    fail(5, 1, n.tag as usize | (part as usize) << 16);
                }
                break;
            }
        }
        true
    }
    /// The leaf at `a` must be what comes next.
    fn reach(&mut self, a: usize) -> bool {
        let i = self.at(a);
        if i >= self.t.len() || self.t[i].a != a {
            return false;
        }
        if i < self.cur && (self.is(i, H_LP) || self.is(i, H_RP)) {
            // a parenthesis the tree has a span for may have been passed over already
            let mut c = i;
            while c < self.cur && (self.is(c, H_LP) || self.is(c, H_RP)) {
                c += 1
            }
            if c == self.cur {
                self.lost = false;
                self.cur = i;
                return true;
            }
        }
        if i > self.cur {
            let mut c = self.cur;
            while c < i && (self.is(c, H_LP) || self.is(c, H_RP)) {
                c += 1
            }
            if c < i && !self.lost {
                self.missing = true;
                fail(7, 1, self.det_at(c));
            }
        } else if i < self.cur && !self.lost {
            self.missing = true;
                fail(7, 2, self.det());
        }
        self.cur = i;
        self.lost = false;
        true
    }
    /// Number of tokens from `i` that spell one of the alternatives of `p` (and end at `b` if
    /// that is not 0), 0 if none.
    fn spells(&self, p: *const u8, n: usize, i: usize, b: usize) -> usize {
        let s = unsafe { core::slice::from_raw_parts(p, n) };
        if s[0] == 2 {
            let k = s[1];
            let ok = match k {
                b'O' => self.is(i, H_OR) || self.is(i, H_PIPES),
                b'B' => self.is(i, H_BAR),
                _ => false,
            };
            return ok as usize;
        }
        let mut k = 0;
        loop {
            // one alternative
            let mut j = i;
            let mut ok = true;
            loop {
                let mut h = 0;
                let k0 = k;
                while k < n && s[k] != b' ' && s[k] != b'|' {
                    h = hash_byte(h, k - k0, s[k]);
                    k += 1
                }
                if ok && self.is(j, h) {
                    j += 1
                } else {
                    ok = false
                }
                if k < n && s[k] == b' ' {
                    k += 1
                } else {
                    break;
                }
            }
            if ok && (b == 0 || self.t[j - 1].b == b) {
                return j - i;
            }
            if k < n && s[k] == b'|' {
                k += 1
            } else {
                return 0;
            }
        }
    }
    /// Skip to the end of the span that starts at the cursor.
    fn pass(&mut self, b: usize) {
        while self.cur < self.t.len() && self.t[self.cur].a < b {
            self.cur += 1
        }
    }
    fn single(&self, b: usize) -> bool {
        self.t[self.cur].b == b
    }
    fn value_is(&self, p: *const u8, n: usize, q: usize, m: usize) -> bool {
        if n != m {
            return false;
        }
        p as usize == q || unsafe { core::slice::from_raw_parts(p, n) == core::slice::from_raw_parts(q as *const u8, m) }
    }

    pub fn run(&mut self, ev: &[Ev]) {
        let mut stmts = 0;
        for (i, e) in ev.iter().enumerate() {
            match e.k {
                ENTER => {
                    if e.a != usize::MAX {
                        self.span(e);
                    }
                    if self.clean && e.x != 0 && e.a < e.b {
                        self.nesting(e)
                    }
                    if e.tag == T::SELECT as u16 || e.tag == T::UNION as u16 {
                        self.queries.push((e.a, e.b))
                    }
                    self.nodes.push(Node { tag: e.tag, a: e.a, b: e.b, prec: e.x, op: false });
                }
                GROUP => self.groups.push((usize::MAX, 0, e.x)),
                UNGROUP => {
                    if let Some((a, b, what)) = self.groups.pop() {
                        if self.clean && a < b && !self.in_parens(a, b) && self.open == 0 {
                            self.open = what as usize
                        }
                        self.seen(a, b)
                    }
                }
                EXIT => {
                    self.nodes.pop();
                }
                STMT => {
                    if self.clean {
                        let before = self.cur;
                        self.skip_delims();
                        let n = stmts;
                        stmts += 1;
                        let data = core::mem::replace(&mut self.after_raw, false);
                        if n > 0 && !data && self.cur == before && self.cur < self.t.len() && !self.lost && i + 1 < ev.len() {
                            // nothing between two statements
                            fail(22, 3, self.det())
                        }
                    }
                }
                SEMIS => {
                    if self.clean {
                        loop {
                            self.parens();
                            if !self.is(self.cur, H_SEMI) {
                                break;
                            }
                            self.cur += 1
                        }
                    }
                }
                HERE => {
                    if self.clean && !self.lost {
                        self.parens();
                        let n = self.spells(e.p, e.n, self.cur, 0);
                        if n == 0 {
                            // the word must have been before this place or is missing
                            fail(6, 2, self.det());
                            self.lost = true;
                        }
                        if n > 0 {
                            self.seen(self.t[self.cur].a, self.t[self.cur + n - 1].b)
                        }
                        self.cur += n
                    }
                }
                OPT => {
                    if self.clean && !self.lost {
                        self.parens();
                        self.cur += self.spells(e.p, e.n, self.cur, 0)
                    }
                }
                BODY => {
                    if self.clean && self.is(self.cur, H_AS) && self.is(self.cur + 1, H_DD) {
                        self.cur += 2;
                        let from = self.cur;
                        while self.cur < self.t.len() && !self.is(self.cur, H_DD) {
                            self.cur += 1
                        }
                        self.body = (from, self.cur);
                        self.cur += 1
                    }
                }
                ERRN => {
                    if self.clean {
                        fail(21, 2, self.det());
                        self.lost = true
                    }
                    self.span(e);
                }
                SPAN => {
                    self.span(e);
                }
                RAW => {
                    if e.a > e.b || e.b > self.src.len() {
                        fail(4, 1, self.det())
                    } else if self.clean {
                        if !self.value_is(e.p, e.n, self.src.as_ptr() as usize + e.a, e.b - e.a) {
                            fail(16, 2, 0)
                        }
                        if self.raw >= self.raws.len() || self.raws[self.raw] != (e.a, e.b) {
                            fail(16, 1, 0)
                        }
                        self.raw += 1;
                        self.after_raw = true;
                        self.skip_delims();
                        self.cur = self.at(e.b)
                    }
                }
                _ => self.leaf(e),
            }
        }
        if self.clean {
            self.parens();
            if self.cur < self.t.len() {
                self.missing = true;
                fail(7, 3, self.det());
            }
            // where something is missing (P07) the parentheses around it are too
            if crate::rt::param(0) == 36 && !self.missing {
                if self.open != 0 {
                    fail(36, 1, self.open)
                }
                self.enclosed()
            }
        }
    }

    fn seen(&mut self, a: usize, b: usize) {
        if let Some(g) = self.groups.last_mut() {
            g.0 = g.0.min(a);
            g.1 = g.1.max(b)
        }
    }
    /// What stands between `( SELECT` and its `)` must be one query.
    fn enclosed(&mut self) {
        for i in 0..self.t.len() {
            if i >= self.body.0 && i < self.body.1 || !self.is(i, H_LP) || !self.is(i + 1, H_SELECT) {
                continue;
            }
            let mut j = i + 1;
            let mut depth = 0usize;
            while j < self.t.len() && (depth > 0 || !self.is(j, H_RP)) {
                if self.is(j, H_LP) {
                    depth += 1
                } else if self.is(j, H_RP) {
                    depth -= 1
                }
                j += 1
            }
            let mut k = j;
            while k > 0 && self.is(k - 1, H_RP) {
                k -= 1
            }
            let mut ok = false;
            for q in &self.queries {
                if q.0 != self.t[i + 1].a {
                    continue;
                }
                // the query may end with parentheses that no span has
                let mut m = k;
                loop {
                    if m > 0 && self.t[m - 1].b == q.1 {
                        ok = true
                    }
                    if m >= j {
                        break;
                    }
                    m += 1
                }
            }
            if !ok {
                fail(36, 2, i)
            }
        }
    }

    /// Is the operand at a..b in parentheses of its own?
    fn in_parens(&self, a: usize, b: usize) -> bool {
        let i = self.at(a);
        let mut j = i;
        let mut depth = 0isize;
        let mut low = 0isize;
        while j < self.t.len() && self.t[j].a < b {
            if self.is(j, H_LP) {
                depth += 1
            } else if self.is(j, H_RP) {
                depth -= 1;
                if depth < low {
                    low = depth
                }
            }
            j += 1
        }
        let mut before = 0;
        let mut k = i;
        while k > 0 && self.is(k - 1, H_LP) {
            before += 1;
            k -= 1
        }
        let mut after = 0;
        while self.is(j, H_RP) {
            after += 1;
            j += 1
        }
        before > -low && after > depth - low
    }
    /// An operator's node may stand as an operand only where it binds tight enough.
    fn nesting(&mut self, e: &Ev) {
        let (ptag, pprec, pop) = match self.nodes.last() {
            Some(n) if n.prec != 0 => (n.tag, n.prec, n.op),
            _ => return,
        };
        let prefix = e.tag == crate::walk::T::UNARY as u16;
        // IS and IN end with a word or a parenthesis: what follows can only take them whole
        let postfix = !prefix && e.tag != crate::walk::T::BINARY as u16;
        let ok = if ptag == crate::walk::T::BINARY as u16 {
            if !pop {
                postfix || e.x >= pprec
            } else {
                prefix || e.x > pprec
            }
        } else if ptag == crate::walk::T::UNARY as u16 {
            prefix || e.x > pprec
        } else {
            // IS and IN: the left operand
            pop || e.x >= pprec
        };
        if !ok && !self.in_parens(e.a, e.b) {
            fail(8, 1, (pprec << 8 | e.x) as usize)
        }
    }

    fn leaf(&mut self, e: &Ev) {
        if e.k == KW {
            if let Some(n) = self.nodes.last_mut() {
                n.op = true
            }
        }
        if !self.span(e) {
            return;
        }
        if !self.clean {
            // with errors a word that is there must still be the word
            if e.k == KW && e.a < e.b {
                let i = self.at(e.a);
                let n = self.spells(e.p, e.n, i, e.b);
                if n == 0 || self.t[i + n - 1].b != e.b {
                    fail(6, 3, self.det_at(i));
                }
            }
            return;
        }
        if !self.reach(e.a) {
            return;
        }
        self.seen(e.a, e.b);
        let tk = self.t[self.cur];
        match e.k {
            KW => {
                let n = self.spells(e.p, e.n, self.cur, e.b);
                if n == 0 || self.t[self.cur + n - 1].b != e.b {
                    fail(6, 1, self.det())
                }
            }
            ID => {
                let k = tk.kind();
                let (p, n) = tk.text(self.src);
                if !self.single(e.b) {
                    fail(6, 4, self.det())
                } else if k == WORD {
                    if !self.value_is(e.p, e.n, p, n) {
                        fail(20, 1, self.det())
                    }
                } else if k == QIDENT || k == DQ {
                    if !self.value_is(e.p, e.n, p + 1, n - 2) {
                        fail(20, 2, self.det())
                    }
                } else {
                    fail(6, 5, self.det())
                }
            }
            STR => {
                let mut i = self.cur;
                let mut v = Vec::new();
                while i < self.t.len() && self.t[i].a < e.b {
                    let k = self.t[i].kind();
                    if k != SQ && k != DQ {
                        fail(6, 6, self.det());
                        break;
                    }
                    decode(self.t[i].bytes(self.src), &mut v);
                    i += 1
                }
                if !self.value_is(e.p, e.n, v.as_ptr() as usize, v.len()) {
                    fail(9, 1, self.det())
                }
            }
            INT => {
                if tk.kind() != lex::INT || !self.single(e.b) {
                    fail(6, 7, self.det())
                } else if digits(tk.bytes(self.src)) != Some(e.x) {
                    fail(10, 1, self.det())
                }
            }
            FLOAT => {
                if tk.kind() != lex::FLOAT || !self.single(e.b) {
                    fail(6, 8, self.det())
                } else {
                    let v: f64 = core::str::from_utf8(tk.bytes(self.src)).unwrap_or("x").parse().unwrap_or(f64::NAN);
                    if v.to_bits() != e.x || v.is_infinite() {
                        fail(10, 2, self.det())
                    }
                }
            }
            NUM2 => {
                let mut i = self.cur;
                let mut end = e.b;
                if self.is(i, H_LP) {
                    // with the parentheses
                    i += 1;
                    let mut k = i;
                    while k < self.t.len() && self.t[k].b < e.b {
                        k += 1
                    }
                    end = if self.is(k, H_RP) { self.t[k - 1].b } else { 0 }
                }
                let one = |k: usize, x: u64| k < self.t.len() && self.t[k].kind() == lex::INT && digits(self.t[k].bytes(self.src)) == Some(x);
                let ok = if one(i, e.x) {
                    if self.t[i].b == end {
                        e.n == 0
                    } else {
                        self.is(i + 1, hash(b",")) && one(i + 2, e.n as u64) && self.t[i + 2].b == end
                    }
                } else {
                    false
                };
                if !ok {
                    fail(10, 3, self.det())
                }
            }
            IVAL => {
                let v = unsafe { core::slice::from_raw_parts(e.p as *const i64, e.n) };
                let b = tk.bytes(self.src);
                let k = tk.kind();
                let ok = match k {
                    lex::INT => self.single(e.b) && v.len() == 1 && v[0] >= 0 && digits(b) == Some(v[0] as u64),
                    SQ | DQ => {
                        let mut text = Vec::new();
                        let mut i = self.cur;
                        while i < self.t.len() && self.t[i].a < e.b {
                            let k = self.t[i].kind();
                            if k == SQ || k == DQ {
                                decode(self.t[i].bytes(self.src), &mut text)
                            }
                            i += 1
                        }
                        interval(&text, v, self.clean)
                    }
                    _ => false,
                };
                if !ok {
                    fail(10, 4, self.det())
                }
            }
            ARG | LIST => {
                let k = tk.kind();
                let (want, ok) = if k == DARG {
                    (digits(&tk.bytes(self.src)[1..]), e.k == ARG)
                } else {
                    self.args += 1;
                    let list = tk.is(hash(b"_LIST_"));
                    let q = tk.is(hash(b"?")) || tk.is(hash(b"%S"));
                    (Some(self.args), if e.k == LIST { list } else { q })
                };
                if !ok || !self.single(e.b) {
                    fail(6, 9, self.det())
                } else if want != Some(e.x.wrapping_add(1)) {
                    fail(11, 1, self.det())
                }
            }
            ANY => {
                if !self.single(e.b) {
                    fail(6, 10, self.det())
                }
            }
            _ => (),
        }
        self.pass(e.b)
    }
}

pub const HASH0: u64 = hash(b"");

/// The value of decimal digits, if it fits.
pub fn digits(b: &[u8]) -> Option<u64> {
    let mut v: u64 = 0;
    for c in b {
        if !c.is_ascii_digit() {
            return None;
        }
        v = match v.checked_mul(10) {
            Some(v) => match v.checked_add((*c - b'0') as u64) {
                Some(v) => v,
                None => return None,
            },
            None => return None,
        }
    }
    Some(v)
}

/// The text an SQL string literal denotes.
pub fn decode(t: &[u8], out: &mut Vec<u8>) {
    let q = t[0];
    let mut i = 1;
    let e = t.len() - 1;
    while i < e {
        let c = t[i];
        if c == q {
            // doubled
            out.push(q);
            i += 2
        } else if c == b'\\' && i + 1 < e {
            let d = t[i + 1];
            match d {
                b'0' => out.push(0),
                b'b' => out.push(8),
                b'n' => out.push(b'\n'),
                b'r' => out.push(b'\r'),
                b't' => out.push(b'\t'),
                b'Z' => out.push(26),
                // these keep the backslash: they matter to LIKE
                b'%' | b'_' => {
                    out.push(b'\\');
                    out.push(d)
                }
                _ => out.push(d),
            }
            i += 2
        } else {
            out.push(c);
            i += 1
        }
    }
}

/// Are `v` the numbers in the text of an interval?
fn interval(b: &[u8], v: &[i64], clean: bool) -> bool {
    let mut k = 0;
    let mut i = 0;
    if clean {
        // numbers with one mark between each two
        loop {
            if i < b.len() && b[i] == b'+' {
                i += 1
            }
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            if s == i {
                return false;
            }
            if i == b.len() {
                break;
            }
            if !matches!(b[i], b':' | b'!' | b',' | b'.' | b'-' | b' ') {
                return false;
            }
            i += 1
        }
        i = 0
    }
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            if k >= v.len() || v[k] < 0 || digits(&b[s..i]) != Some(v[k] as u64) {
                return false;
            }
            k += 1
        } else {
            i += 1
        }
    }
    k == v.len()
}
