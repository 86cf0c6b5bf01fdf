//! The entry points: each reads a text (with symbolic parts), runs the real parser on it and
//! states what must hold of the outcome.
use crate::ev::*;
use crate::lex::{self, hash, Tok};
use crate::oracle::*;
use crate::rt::*;
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::mem::forget;
use sql_parse::{
    parse_statement, parse_statements, Identifier, Issues, Level, OptSpanned, ParseOptions, SQLArguments, SQLDialect, Span, Spanned, Statement,
};

fn dialect(d: usize) -> SQLDialect {
    match d {
        0 => SQLDialect::MariaDB,
        1 => SQLDialect::PostgreSQL,
        _ => SQLDialect::Sqlite,
    }
}
fn arguments(a: usize) -> SQLArguments {
    match a {
        0 => SQLArguments::None,
        1 => SQLArguments::Percent,
        2 => SQLArguments::QuestionMark,
        _ => SQLArguments::Dollar,
    }
}
const MULTI: usize = 1;
const WARN_ID: usize = 2;
const WARN_KW: usize = 4;
const LISTS: usize = 8;

fn options(d: usize, a: usize, flags: usize) -> ParseOptions {
    ParseOptions::new()
        .dialect(dialect(d))
        .arguments(arguments(a))
        .warn_unquoted_identifiers(flags & WARN_ID != 0)
        .warn_none_capital_keywords(flags & WARN_KW != 0)
        .list_hack(flags & LISTS != 0)
}

pub struct Parsed<'a> {
    pub src: &'a str,
    pub stmts: Vec<Statement<'a>>,
    pub issues: Issues<'a>,
    pub errors: usize,
    pub ev: Vec<Ev>,
}

fn parse<'a>(src: &'a str, d: usize, a: usize, flags: usize) -> Parsed<'a> {
    let o = options(d, a, flags);
    let mut issues = Issues::new(src);
    let stmts = if flags & MULTI != 0 {
        parse_statements(src, &mut issues, &o)
    } else {
        match parse_statement(src, &mut issues, &o) {
            Some(s) => {
                let mut v = Vec::with_capacity(1);
                v.push(s);
                v
            }
            None => Vec::new(),
        }
    };
    let mut errors = 0;
    for i in issues.get() {
        if i.level == Level::Error {
            errors += 1
        }
    }
    let mut w = W::new(d);
    w.program(&stmts);
    Parsed { src, stmts, issues, errors, ev: w.ev }
}

/// Data regions: after `COPY .. FROM STDIN ;` the rest of the line is skipped and then every
/// line up to `\.` is data.
fn regions(src: &[u8], out: &mut Vec<(usize, usize)>, skip: &mut Vec<(usize, usize)>) {
    loop {
        let t = lex::tokens(src, skip);
        let from = match skip.last() {
            Some(r) => r.1,
            None => 0,
        };
        let mut first = usize::MAX;
        let mut found = None;
        for i in 0..t.len() {
            if t[i].a < from {
                continue;
            }
            if t[i].is(hash(b";")) {
                if first != usize::MAX && i >= 2 && t[first].is(hash(b"COPY")) && t[i - 1].is(hash(b"STDIN")) && t[i - 2].is(hash(b"FROM")) {
                    found = Some(t[i].b);
                    break;
                }
                first = usize::MAX
            } else if first == usize::MAX {
                first = i
            }
        }
        let p = match found {
            None => return,
            Some(p) => p,
        };
        let mut a = p;
        while a < src.len() && src[a] != b'\n' && (src[a] == b' ' || src[a] == b'\t' || src[a] == b'\r' || src[a] == 12) {
            a += 1
        }
        if a < src.len() && src[a] == b'\n' {
            a += 1
        }
        // line by line
        let mut i = a;
        let end;
        loop {
            let mut e = i;
            while e < src.len() && src[e] != b'\n' {
                e += 1
            }
            if e == i + 2 && src[i] == b'\\' && src[i + 1] == b'.' && (i > a || a == 0 || src[a - 1] == b'\n') {
                out.push((a, i));
                end = if e < src.len() { e + 1 } else { e };
                break;
            }
            if e >= src.len() {
                out.push((a, src.len()));
                end = src.len();
                break;
            }
            i = e + 1
        }
        skip.push((p, end));
    }
}

/// Words that may not be a plain name, by the documentation of MariaDB and the crate's own
/// statement of them.
#[inline(never)]
fn slotmerge_reserved(idx: usize) -> u64 {
    reserved_word(sql_parse::verif::slot_text(idx).as_bytes()) as u64
}
fn reserved_word(b: &[u8]) -> bool {
    crate::reserved::is_reserved(hash(b))
}
fn reserved(t: &Tok, src: &[u8]) -> bool {
    if t.slot == lex::NOSLOT {
        reserved_word(t.bytes(src))
    } else {
        slotmerge_reserved(t.slot) != 0
    }
}

fn check_issue_span(src: &str, s: &Span, seg: &str) {
    let ok = s.start <= s.end && s.end <= src.len();
    if !ok {
        fail(3, 1, 0);
        return;
    }
    if !src.is_char_boundary(s.start) || !src.is_char_boundary(s.end) {
        fail(3, 2, 0)
    }
    if seg.len() != s.end - s.start || seg.as_ptr() as usize != src.as_ptr() as usize + s.start {
        fail(3, 3, 0)
    }
}

fn check_issues(p: &Parsed) {
    for i in p.issues.get() {
        check_issue_span(p.src, &i.span, i.sql_segment);
        for f in &i.fragments {
            check_issue_span(p.src, &f.span, f.sql_segment)
        }
    }
}

/// All that must hold of one parse.
fn check_all(p: &Parsed, flags: usize) {
    check_issues(p);
    let src = p.src.as_bytes();
    let clean = p.errors == 0;
    let mut raws = Vec::new();
    let mut skip = Vec::new();
    if flags & MULTI != 0 {
        if clean {
            regions(src, &mut raws, &mut skip)
        } else {
            let mut last = 0;
            for e in &p.ev {
                if e.k == RAW && e.a <= e.b && e.b <= src.len() && e.a >= last {
                    // with the end marker, which is no part of the data
                    let mut b = e.b;
                    if src.len() >= b + 2 && src[b] == b'\\' && src[b + 1] == b'.' {
                        b += 2
                    }
                    skip.push((e.a, b));
                    last = b
                }
            }
        }
    }
    let toks = lex::tokens(src, &skip);
    // the text of a $$ body that the tree does not describe is opaque
    let mut opaque = (usize::MAX, 0);
    if clean && p.ev.iter().any(|e| e.k == BODY) {
        for t in &toks {
            if t.is(hash(b"$$")) {
                if opaque.0 == usize::MAX {
                    opaque.0 = t.a
                }
                opaque.1 = t.b
            }
        }
    }
    let hidden = |t: &Tok| opaque.0 <= t.a && t.b <= opaque.1;
    let mut bad = false;
    for t in &toks {
        if t.kind() == lex::BAD && !hidden(t) {
            bad = true
        }
    }
    if bad {
        if clean {
            fail(19, 1, 0)
        }
    } else {
        let mut o = Oracle::new(src, &toks, &raws, clean);
        o.multi = flags & MULTI != 0;
        o.run(&p.ev)
    }
    if clean {
        // parentheses balance
        let mut depth = 0usize;
        for (i, t) in toks.iter().enumerate() {
            if i > 0 && flags & MULTI != 0 && (t.is(hash(b"(")) || t.is(hash(b")"))) && toks[i - 1].is(hash(b"DELIMITER")) {
                // parentheses end statements
                depth = 0;
                break;
            }
            if hidden(t) {
            } else if t.is(hash(b"(")) {
                depth += 1
            } else if t.is(hash(b")")) {
                if depth == 0 {
                    fail(22, 1, 0);
                    depth = 1
                }
                depth -= 1
            }
        }
        if depth != 0 {
            fail(22, 2, 0)
        }
        if flags & MULTI == 0 && p.stmts.is_empty() {
            fail(21, 1, 0)
        }
    }
    for t in &p.ev {
        if t.k == ID && t.tag == 0 && clean && !bad {
            // an identifier that is a reserved word without quotes
            for k in &toks {
                if k.a == t.a && k.b == t.b {
                    if k.kind() == lex::WORD && reserved(k, src) {
                        fail(20, 3, (k.hash() & 0xffff) as usize)
                    }
                    break;
                }
            }
        }
    }
}

/// The words around the first issue.
fn at_issue(p: &Parsed) -> usize {
    let toks = lex::tokens(p.src.as_bytes(), &[]);
    let mut k = 0;
    while k < toks.len() && toks[k].a < p.issues.get()[0].span.start {
        k += 1
    }
    let h = |i: usize| if i < toks.len() { (toks[i].hash() & 0xffff) as usize } else { 0 };
    h(k.wrapping_sub(1)) << 16 | h(k) << 32
}

fn outcome(p: &Parsed) {
    cover(if p.errors == 0 { 1 } else { 2 });
    if !p.stmts.is_empty() {
        cover(4)
    }
    // lets the native replay confirm that the executor computed what the machine computes
    let mut h = 0usize;
    for e in &p.ev {
        h = h.wrapping_mul(31).wrapping_add(e.k as usize * 7 + e.tag as usize * 131).wrapping_add(e.a.wrapping_mul(3)).wrapping_add(e.b)
    }
    for i in p.issues.get() {
        h = h.wrapping_mul(37).wrapping_add(i.span.start * 3 + i.span.end)
    }
    trace(p.ev.len());
    trace(p.issues.get().len());
    trace(h);
}

/// parameters: property, other properties that count, dialect, arguments, flags, expectation
#[no_mangle]
pub extern "C-unwind" fn main_stmt() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let src = inp.str();
    let (d, a, flags, expect) = (param(2), param(3), param(4), param(5));
    let p = parse(src, d, a, flags);
    match expect {
        0 => check_all(&p, flags),
        // the text is valid
        1 => {
            if !p.issues.get().is_empty() {
                fail_own(101, at_issue(&p))
            } else {
                check_all(&p, flags)
            }
        }
        // the text is not valid
        2 => {
            if p.errors == 0 {
                let toks = lex::tokens(src.as_bytes(), &[]);
                let h = |i: usize| if i < toks.len() { (toks[i].hash() & 0xffff) as usize } else { 0 };
                fail_own(102, h(0) | h(toks.len().wrapping_sub(1)) << 16 | toks.len() << 32)
            } else {
                check_all(&p, flags)
            }
        }
        // valid exactly when no slot holds a reserved word
        3 => {
            let toks = lex::tokens(src.as_bytes(), &[]);
            let n = param(6);
            let bad = n < toks.len() && toks[n].kind() == lex::WORD && reserved(&toks[n], src.as_bytes());
            if bad != (p.errors != 0) {
                fail_own(if bad { 103 } else { 104 }, (toks[n].hash() & 0xffff) as usize)
            }
        }
        // no warning either, or only warnings
        _ => {
            if p.errors != 0 {
                fail_own(101, at_issue(&p))
            } else {
                check_all(&p, flags)
            }
        }
    }
    outcome(&p);
    forget(p);
    forget(inp);
}

// ---- comparing two parses ----

struct Map<'s> {
    toks: &'s [Tok],
    /// positions are compared as they are, less this
    base: usize,
    clip: usize,
    by_token: bool,
}
impl Map<'_> {
    fn start(&self, a: usize) -> usize {
        if self.by_token {
            let mut n = 0;
            while n < self.toks.len() && self.toks[n].a < a {
                n += 1
            }
            n
        } else {
            let v = a.wrapping_sub(self.base);
            if v > self.clip && v < usize::MAX / 2 {
                self.clip
            } else {
                v
            }
        }
    }
    fn end(&self, b: usize) -> usize {
        if self.by_token {
            let mut n = 0;
            while n < self.toks.len() && self.toks[n].b <= b {
                n += 1
            }
            n
        } else {
            self.start(b)
        }
    }
}
fn bytes<'a>(p: *const u8, n: usize) -> &'a [u8] {
    unsafe { core::slice::from_raw_parts(p, n) }
}
fn same_text(p: *const u8, n: usize, q: *const u8, m: usize, any_case: bool) -> bool {
    if n != m {
        return false;
    }
    if p == q || n == 0 {
        return true;
    }
    if any_case {
        bytes(p, n).eq_ignore_ascii_case(bytes(q, m))
    } else {
        bytes(p, n) == bytes(q, m)
    }
}
const ANY_CASE: usize = 1;
const NO_ARGS: usize = 2;
fn same_ev(x: &Ev, mx: &Map, y: &Ev, my: &Map, how: usize) -> bool {
    if x.k != y.k || x.tag != y.tag {
        return false;
    }
    match x.k {
        HERE | OPT => same_text(x.p, x.n, y.p, y.n, false),
        EXIT | STMT | SEMIS | BODY => true,
        _ => {
            if (x.a == usize::MAX) != (y.a == usize::MAX) {
                return false;
            }
            if x.a != usize::MAX && (mx.start(x.a) != my.start(y.a) || mx.end(x.b) != my.end(y.b)) {
                return false;
            }
            match x.k {
                ID => same_text(x.p, x.n, y.p, y.n, how & ANY_CASE != 0),
                STR | KW | RAW => same_text(x.p, x.n, y.p, y.n, false),
                NUM2 => x.x == y.x && x.n == y.n,
                IVAL => same_text(x.p, x.n * 8, y.p, y.n * 8, false),
                ARG | LIST => how & NO_ARGS != 0 || x.x == y.x,
                _ => x.x == y.x,
            }
        }
    }
}
/// Index of the first event that differs.
fn diff_ev(x: &[Ev], mx: &Map, y: &[Ev], my: &Map, how: usize) -> Option<usize> {
    let mut i = 0;
    while i < x.len() && i < y.len() {
        if !same_ev(&x[i], mx, &y[i], my, how) {
            return Some(i);
        }
        i += 1
    }
    if x.len() != y.len() {
        Some(i)
    } else {
        None
    }
}
fn tag_at(ev: &[Ev], i: usize) -> usize {
    let mut stack = [0u16; 64];
    let mut n = 0;
    for e in &ev[..if i < ev.len() { i } else { ev.len() }] {
        if e.k == ENTER {
            if n < 64 {
                stack[n] = e.tag
            }
            n += 1
        } else if e.k == EXIT {
            n -= 1
        }
    }
    if n > 0 && n <= 64 {
        stack[n - 1] as usize
    } else {
        0
    }
}
fn same_span(a: &Span, m: &Map, b: &Span, w: &Map) -> bool {
    m.start(a.start) == w.start(b.start) && m.end(a.end) == w.end(b.end)
}
/// Do both report the same errors at the same places?
fn same_errors(x: &Issues, mx: &Map, y: &Issues, my: &Map) -> bool {
    let mut i = x.get().iter().filter(|i| i.level == Level::Error);
    let mut j = y.get().iter().filter(|i| i.level == Level::Error);
    loop {
        match (i.next(), j.next()) {
            (None, None) => return true,
            (Some(a), Some(b)) => {
                if !same_span(&a.span, mx, &b.span, my) || a.fragments.len() != b.fragments.len() {
                    return false;
                }
                for k in 0..a.fragments.len() {
                    if !same_span(&a.fragments[k].span, mx, &b.fragments[k].span, my) {
                        return false;
                    }
                }
            }
            _ => return false,
        }
    }
}
fn split<'a>(src: &'a str, out: &mut [&'a str]) -> usize {
    let b = src.as_bytes();
    let mut n = 0;
    let mut s = 0;
    for i in 0..=b.len() {
        if i == b.len() || b[i] == 2 {
            if n < out.len() {
                out[n] = text(&b[s..i]);
                n += 1
            }
            s = i + 1
        }
    }
    n
}
fn compare(x: &Parsed, mx: &Map, y: &Parsed, my: &Map, how: usize) {
    if let Some(i) = diff_ev(&x.ev, mx, &y.ev, my, how) {
        fail_own(1, tag_at(&x.ev, i))
    }
    if !same_errors(&x.issues, mx, &y.issues, my) {
        fail_own(2, 0)
    }
}

fn strip(t: &[Tok]) -> Vec<Tok> {
    let mut v = Vec::with_capacity(t.len());
    for x in t {
        if !x.is(hash(b"(")) && !x.is(hash(b")")) {
            v.push(*x)
        }
    }
    v
}

/// Two texts that must mean the same.
/// parameters: property, -, dialect, arguments, flags, how (1: words may differ in case,
/// 4: parentheses may differ)
#[no_mangle]
pub extern "C-unwind" fn main_two() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let mut part = [""; 2];
    let n = split(inp.str(), &mut part);
    assume(n == 2);
    let (d, a, flags, how) = (param(2), param(3), param(4), param(5));
    let mut t0 = lex::tokens(part[0].as_bytes(), &[]);
    let mut t1 = lex::tokens(part[1].as_bytes(), &[]);
    if how & 4 != 0 {
        t0 = strip(&t0);
        t1 = strip(&t1);
    }
    let x = parse(part[0], d, a, flags);
    let y = parse(part[1], d, a, flags);
    let mx = Map { toks: &t0, base: 0, clip: usize::MAX, by_token: true };
    let my = Map { toks: &t1, base: 0, clip: usize::MAX, by_token: true };
    if how & 4 != 0 {
        // parentheses are only neutral in a text that is valid
        if (x.errors == 0) != (y.errors == 0) {
            fail_own(3, 0)
        } else if x.errors == 0 {
            if let Some(i) = diff_ev(&x.ev, &mx, &y.ev, &my, how) {
                fail_own(1, tag_at(&x.ev, i))
            }
        }
    } else {
        compare(&x, &mx, &y, &my, how)
    }
    outcome(&x);
    outcome(&y);
    forget((x, y, t0, t1));
    forget(inp);
}

/// One text, two sets of options.
/// parameters: property, -, dialect, arguments, flags, dialect, arguments, flags, and whether
/// only texts that both accept are compared
#[no_mangle]
pub extern "C-unwind" fn main_options() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let src = inp.str();
    let x = parse(src, param(2), param(3), param(4));
    let y = parse(src, param(5), param(6), param(7));
    let m = Map { toks: &[], base: 0, clip: usize::MAX, by_token: false };
    if param(2) != param(5) {
        // which words form a type or a body is looked up by dialect when the tree is flattened
        let mut w = W::new(param(2));
        w.program(&y.stmts);
        // a construct of one dialect is an error in the other
        let skip = param(8) != 0 && (x.errors > 0 || y.errors > 0);
        if !skip {
            if let Some(i) = diff_ev(&x.ev, &m, &w.ev, &m, 0) {
                fail_own(1, tag_at(&x.ev, i))
            }
            if !same_errors(&x.issues, &m, &y.issues, &m) {
                fail_own(2, 0)
            }
        }
        forget(w);
    } else {
        compare(&x, &m, &y, &m, 0)
    }
    warnings(&x, param(4));
    warnings(&y, param(7));
    outcome(&x);
    outcome(&y);
    forget((x, y));
    forget(inp);
}

/// Warnings are about unquoted names and words with small letters, one for each.
fn warnings(p: &Parsed, flags: usize) {
    let src = p.src.as_bytes();
    let toks = lex::tokens(src, &[]);
    let mut last: Vec<usize> = Vec::new();
    let mut named = 0;
    for i in p.issues.get() {
        if i.level != Level::Warning {
            continue;
        }
        // a strange delimiter is warned about whatever the options
        let mut delimiter = false;
        for k in 1..toks.len() {
            if toks[k].a == i.span.start && toks[k - 1].is(hash(b"DELIMITER")) {
                delimiter = true
            }
        }
        if delimiter {
            continue;
        }
        if flags & (WARN_ID | WARN_KW) == 0 {
            fail(18, 3, 0);
            continue;
        }
        let mut at = toks.len();
        for k in 0..toks.len() {
            if toks[k].a == i.span.start && toks[k].b == i.span.end {
                at = k
            }
        }
        if at == toks.len() {
            fail(18, 4, 0);
            continue;
        }
        if toks[at].kind() != lex::WORD {
            fail(18, 5, 0);
            continue;
        }
        if flags & WARN_ID == 0 && toks[at].caps(src) {
            // a keyword in capitals
            fail(18, 6, (toks[at].hash() & 0xffff) as usize)
        }
        if flags & WARN_KW == 0 {
            let mut name = false;
            for e in &p.ev {
                if e.k == ID && e.a == i.span.start {
                    name = true
                }
            }
            if !name && p.errors == 0 {
                fail(18, 7, 0)
            }
            named += 1
        }
        for s in &last {
            if *s == i.span.start && !(flags & WARN_ID != 0 && flags & WARN_KW != 0) {
                fail(18, 8, 0)
            }
        }
        last.push(i.span.start)
    }
    if p.errors == 0 && flags & WARN_ID != 0 && flags & WARN_KW == 0 {
        let mut want = 0;
        for e in &p.ev {
            if e.k == ID && e.tag == 0 {
                for k in &toks {
                    if k.a == e.a && k.kind() == lex::WORD {
                        want += 1
                    }
                }
            }
        }
        if want != named {
            fail(18, 9, 0)
        }
    }
}

/// A list under a delimiter of its own: what comes before the first part holds for all of them, and
/// each part ends with the delimiter. A part parsed alone has blanks in place of the others.
/// parameters: property, -, dialect, arguments, flags
#[no_mangle]
pub extern "C-unwind" fn main_delimited() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let mut end = [0usize; 6];
    let mut n = 0;
    for i in 0..inp.len {
        if inp.buf[i] == 2 {
            inp.buf[i] = b' ';
            if n < 5 {
                end[n] = i + 1;
                n += 1
            }
        }
    }
    end[n] = inp.len;
    let (d, a, flags) = (param(2), param(3), param(4) | MULTI);
    let x = parse(text(&inp.buf[..inp.len]), d, a, flags);
    let m = Map { toks: &[], base: 0, clip: usize::MAX, by_token: false };
    let mut ev: Vec<Ev> = Vec::new();
    let mut errors = 0;
    for i in 0..n {
        let mut one = Box::new(Input::new());
        for k in 0..inp.len {
            one.buf[k] = if k < end[0] || k >= end[i] && k < end[i + 1] { inp.buf[k] } else { b' ' }
        }
        let y = parse(text(&one.buf[..inp.len]), d, a, flags);
        let mut k = 0;
        for e in y.issues.get() {
            if e.level != Level::Error {
                continue;
            }
            let mut at = 0;
            let mut ok = false;
            for f in x.issues.get() {
                if f.level != Level::Error {
                    continue;
                }
                if at == errors + k {
                    ok = f.span == e.span;
                    break;
                }
                at += 1
            }
            if !ok {
                fail_own(2, i)
            }
            k += 1
        }
        errors += k;
        ev.extend_from_slice(&y.ev[..y.ev.len() - 1]);
        forget(y);
        forget(one);
    }
    if errors != x.errors {
        fail_own(3, 0)
    }
    ev.push(x.ev[x.ev.len() - 1]);
    if let Some(i) = diff_ev(&x.ev, &m, &ev, &m, NO_ARGS) {
        fail_own(1, tag_at(&x.ev, i))
    }
    outcome(&x);
    forget((x, ev));
    forget(inp);
}

/// A list of statements against each of them alone. Each part ends with `;`.
/// parameters: property, -, dialect, arguments, flags
#[no_mangle]
pub extern "C-unwind" fn main_parts() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let mut part = [0usize; 5];
    let n = {
        let mut s = [""; 4];
        let n = split(inp.str(), &mut s);
        for i in 0..n {
            part[i] = s[i].len()
        }
        n
    };
    let (d, a, flags) = (param(2), param(3), param(4) | MULTI);
    // the parts follow each other with one byte between them
    for i in 0..inp.len {
        if inp.buf[i] == 2 {
            inp.buf[i] = b';'
        }
    }
    let len = inp.len;
    inp.buf[len] = b';';
    let full = text(&inp.buf[..len + 1]);
    let mut at = 0;
    for i in 0..n {
        let l = part[i] + 1;
        part[i] = at;
        at += l
    }
    part[n] = at;
    let x = parse(full, d, a, flags);
    let mut ev: Vec<Ev> = Vec::new();
    let mut errors = 0;
    for i in 0..n {
        let base = part[i];
        let y = parse(&full[part[i]..part[i + 1]], d, a, flags);
        let my = Map { toks: &[], base: 0, clip: usize::MAX, by_token: false };
        let mx = Map { toks: &[], base, clip: usize::MAX, by_token: false };
        // the part's errors, in order, are a stretch of the list's errors
        let mut k = 0;
        for e in y.issues.get() {
            if e.level != Level::Error {
                continue;
            }
            let mut m = 0;
            let mut ok = false;
            for f in x.issues.get() {
                if f.level != Level::Error {
                    continue;
                }
                if m == errors + k {
                    ok = same_span(&f.span, &mx, &e.span, &my);
                    break;
                }
                m += 1
            }
            if !ok {
                fail_own(2, i)
            }
            k += 1
        }
        errors += k;
        for e in &y.ev[..y.ev.len() - 1] {
            let mut e = *e;
            if !matches!(e.k, HERE | OPT | EXIT | STMT | SEMIS | BODY) && e.a != usize::MAX {
                e.a += base;
                e.b += base
            }
            ev.push(e)
        }
        forget(y);
    }
    if errors != x.errors {
        fail_own(3, 0)
    }
    ev.push(x.ev[x.ev.len() - 1]);
    let m = Map { toks: &[], base: 0, clip: usize::MAX, by_token: false };
    if let Some(i) = diff_ev(&x.ev, &m, &ev, &m, NO_ARGS) {
        fail_own(1, tag_at(&x.ev, i))
    }
    outcome(&x);
    forget((x, ev));
    forget(inp);
}

/// One statement parsed alone, as a list, and as a list without the delimiter at its end, which
/// is reported at the end of the text.
/// parameters: property, -, dialect, arguments, flags
#[no_mangle]
pub extern "C-unwind" fn main_single() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let (d, a, flags) = (param(2), param(3), param(4) & !MULTI);
    let len = inp.len;
    inp.buf[len] = b';';
    let with = text(&inp.buf[..len + 1]);
    let src = text(&inp.buf[..len]);
    let x = parse(src, d, a, flags);
    let y = parse(src, d, a, flags | MULTI);
    let z = parse(with, d, a, flags | MULTI);
    let m = Map { toks: &[], base: 0, clip: len, by_token: false };
    compare(&x, &m, &z, &m, 0);
    if let Some(i) = diff_ev(&x.ev, &m, &y.ev, &m, 0) {
        fail_own(4, tag_at(&x.ev, i))
    }
    // the end of the text is where its delimiter is missing
    let more = y.errors.wrapping_sub(x.errors);
    let last = y.issues.get().last();
    if more > 1 || more == 1 && !last.is_some_and(|l| l.level == Level::Error && l.span.start == len && l.span.end == len) || x.errors == 0 && more == 0 {
        fail_own(5, more)
    }
    if x.errors > 0 && more == 0 && !same_errors(&x.issues, &m, &y.issues, &m) {
        fail_own(6, 0)
    }
    outcome(&x);
    outcome(&y);
    outcome(&z);
    forget((x, y, z));
    forget(inp);
}

/// One expression in two places.
/// parameters: property, -, dialect, arguments, flags, start in the first text, start in the
/// second, length
#[no_mangle]
pub extern "C-unwind" fn main_place() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let mut part = [""; 2];
    let n = split(inp.str(), &mut part);
    assume(n == 2);
    let (d, a, flags) = (param(2), param(3), param(4));
    let (s0, s1, len) = (param(5), param(6), param(7));
    let x = parse(part[0], d, a, flags);
    let y = parse(part[1], d, a, flags);
    if (x.errors == 0) != (y.errors == 0) {
        fail_own(3, 0)
    } else if x.errors == 0 {
        let e0 = place(&x, s0, len);
        let e1 = place(&y, s1, len);
        let m0 = Map { toks: &[], base: s0, clip: usize::MAX, by_token: false };
        let m1 = Map { toks: &[], base: s1, clip: usize::MAX, by_token: false };
        if e0.is_empty() {
            fail_own(4, 0)
        }
        if let Some(i) = diff_ev(&e0, &m0, &e1, &m1, 0) {
            fail_own(1, tag_at(&e0, i))
        }
        forget((e0, e1));
    }
    outcome(&x);
    outcome(&y);
    forget((x, y));
    forget(inp);
}
/// The events of the expression at s.
fn place(p: &Parsed, s: usize, len: usize) -> Vec<Ev> {
    let mut v = Vec::with_capacity(p.ev.len());
    for e in &p.ev {
        if matches!(e.k, HERE | OPT | EXIT | STMT | SEMIS | BODY) || e.a == usize::MAX {
            continue;
        }
        if e.a < s || e.b > s + len {
            continue;
        }
        // nodes that hold just the expression
        if e.k == ENTER && e.tag > crate::walk::T::INVALID_EXPR as u16 {
            continue;
        }
        v.push(*e)
    }
    v
}

/// The order in which options are set does not matter, and neither do settings that are
/// replaced later.
/// parameters: property, -, dialect, arguments, three flags (2, 4, 8), order, first value of all
#[no_mangle]
pub extern "C-unwind" fn main_setters() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let src = inp.str();
    let (d, a, flags, order, junk) = (param(2), param(3), param(4), param(5), param(6));
    let mut o = ParseOptions::new();
    // values that are replaced
    o = o.dialect(dialect(junk % 3)).arguments(arguments(junk / 3 % 4));
    o = o.warn_unquoted_identifiers(junk & 1 != 0).warn_none_capital_keywords(junk & 2 != 0).list_hack(junk & 4 != 0);
    let mut left = [0usize, 1, 2, 3, 4];
    let mut n = 5;
    let mut k = order;
    while n > 0 {
        let i = k % n;
        k /= n;
        match left[i] {
            0 => o = o.dialect(dialect(d)),
            1 => o = o.arguments(arguments(a)),
            2 => o = o.warn_unquoted_identifiers(flags & WARN_ID != 0),
            3 => o = o.warn_none_capital_keywords(flags & WARN_KW != 0),
            _ => o = o.list_hack(flags & LISTS != 0),
        }
        left[i] = left[n - 1];
        n -= 1
    }
    let got = match o.get_dialect() {
        SQLDialect::MariaDB => 0,
        SQLDialect::PostgreSQL => 1,
        SQLDialect::Sqlite => 2,
    };
    if got != d {
        fail_own(1, 0)
    }
    let g = o.get_dialect();
    if g.is_maria() != (d == 0) || g.is_postgresql() != (d == 1) || g.is_sqlite() != (d == 2) {
        fail_own(2, 0)
    }
    // each option shows in how a statement of the probe is parsed
    let mut issues = Issues::new(src);
    let stmts = parse_statements(src, &mut issues, &o);
    let toks = lex::tokens(src.as_bytes(), &[]);
    let mut bits = 0usize;
    for i in issues.get() {
        for (k, t) in toks.iter().enumerate() {
            if t.a == i.span.start {
                bits |= (if i.level == Level::Error { 1 } else { 1 << 32 }) << k;
                break;
            }
        }
    }
    // what each token of the probe must give
    let mut want = 0usize;
    for (k, t) in toks.iter().enumerate() {
        let err = (t.is(hash(b"?")) && a != 2)
            || (t.is(hash(b"%S")) && a != 1)
            || (t.kind() == lex::DARG && a != 3)
            // a list takes no member
            || (t.is(hash(b".")) && flags & LISTS != 0)
            || (t.kind() == lex::QIDENT && d == 1)
            || (t.kind() == lex::DQ && d != 1);
        let bytes = t.bytes(src.as_bytes());
        let warn = (flags & WARN_KW != 0 && bytes == b"select") || (flags & WARN_ID != 0 && (bytes == b"nm" || bytes == b"tt" || flags & LISTS == 0 && (bytes == b"_LIST_" || bytes == b"zz")));
        if err {
            want |= 1 << k
        }
        if warn {
            want |= (1 << 32) << k
        }
    }
    if bits != want {
        fail_own(3, 0)
    }
    let x = parse(src, d, a, flags | MULTI);
    let mut w = W::new(d);
    w.program(&stmts);
    let m = Map { toks: &[], base: 0, clip: usize::MAX, by_token: false };
    if diff_ev(&x.ev, &m, &w.ev, &m, 0).is_some() {
        fail_own(4, 0)
    }
    if issues.get().len() != x.issues.get().len() {
        fail_own(5, 0)
    }
    outcome(&x);
    forget((x, w, stmts, issues));
    forget(inp);
}

/// Three identifiers of symbolic text at symbolic places.
#[no_mangle]
pub extern "C-unwind" fn main_ident() {
    use core::borrow::Borrow;
    use core::cmp::Ordering::*;
    let mut inp = Box::new(Input::new());
    inp.read();
    let mut part = [""; 3];
    let n = split(inp.str(), &mut part);
    assume(n == 3);
    let id = |i: usize| Identifier::new(part[i], param(2 + i)..param(2 + i) + 7);
    let (a, b, c) = (id(0), id(1), id(2));
    // by the text, byte by byte
    fn cmp(x: &str, y: &str) -> core::cmp::Ordering {
        let (x, y) = (x.as_bytes(), y.as_bytes());
        let mut i = 0;
        loop {
            if i == x.len() || i == y.len() {
                return if x.len() == y.len() {
                    Equal
                } else if x.len() < y.len() {
                    Less
                } else {
                    Greater
                };
            }
            if x[i] != y[i] {
                return if x[i] < y[i] { Less } else { Greater };
            }
            i += 1
        }
    }
    let ab = cmp(part[0], part[1]);
    let bc = cmp(part[1], part[2]);
    if (a == b) != (ab == Equal) || (a != b) != (ab != Equal) {
        fail_own(1, 0)
    }
    if a.cmp(&b) != ab || b.cmp(&a) != ab.reverse() {
        fail_own(2, 0)
    }
    if a.partial_cmp(&b) != Some(ab) || b.partial_cmp(&c) != Some(bc) {
        fail_own(3, 0)
    }
    if (a < b) != (ab == Less) || (a <= b) != (ab != Greater) || (a > b) != (ab == Greater) || (a >= b) != (ab != Less) {
        fail_own(4, 0)
    }
    if a.cmp(&b) == b.cmp(&c) && a.cmp(&c) != ab {
        fail_own(5, 0)
    }
    let (x, y): (&str, &str) = (a.borrow(), b.borrow());
    if x.cmp(y) != a.cmp(&b) || (x == y) != (a == b) {
        fail_own(6, 0)
    }
    if !core::ptr::eq(&*a as &str, part[0]) || a.as_str() != part[0] || a.value != part[0] || x != part[0] {
        fail_own(7, 0)
    }
    if a.span() != (param(2)..param(2) + 7) {
        fail_own(8, 0)
    }
    // look up by text in a sorted list
    let mut v = Vec::with_capacity(3);
    for i in [&a, &b, &c] {
        let mut k = v.len();
        while k > 0 && i < v[k - 1] {
            k -= 1
        }
        v.insert(k, i)
    }
    for p in part {
        match v.binary_search_by(|i| (Borrow::<str>::borrow(*i)).cmp(p)) {
            Ok(k) => {
                if v[k].as_str() != p {
                    fail_own(9, 0)
                }
            }
            Err(_) => fail_own(10, 0),
        }
    }
    cover(if ab == Equal { 1 } else { 2 });
    cover(4);
    trace(ab as i8 as usize);
    forget(v);
    forget(inp);
}

/// Spans of symbolic places.
/// parameters: property, -, shape, then a, b, c, d, e, f: three spans
#[no_mangle]
pub extern "C-unwind" fn main_span() {
    let (x, y, z) = (param(3)..param(4), param(5)..param(6), param(7)..param(8));
    assume(x.start <= x.end && y.start <= y.end && z.start <= z.end);
    let covers = |o: &Span, i: &Span| o.start <= i.start && i.end <= o.end;
    // smallest cover of two: it covers both and each end is an end of one of them
    let minimal = |o: &Span, a: &Span, b: &Span| {
        covers(o, a) && covers(o, b) && (o.start == a.start || o.start == b.start) && (o.end == a.end || o.end == b.end)
    };
    let none: Option<Span> = None;
    match param(2) {
        0 => {
            if !minimal(&x.join_span(&y), &x, &y) {
                fail_own(1, 0)
            }
            if x.join_span(&y) != y.join_span(&x) {
                fail_own(2, 0)
            }
            if x.join_span(&x) != x {
                fail_own(3, 0)
            }
        }
        1 => {
            if x.join_span(&y).join_span(&z) != x.join_span(&y.join_span(&z)) {
                fail_own(4, 0)
            }
        }
        2 => {
            if x.join_span(&none) != x {
                fail_own(5, 0)
            }
            if none.opt_join_span(&x) != Some(x.clone()) || Some(x.clone()).opt_join_span(&none) != Some(x.clone()) {
                fail_own(6, 0)
            }
            if none.opt_join_span(&none).is_some() || none.opt_span().is_some() {
                fail_own(7, 0)
            }
            if Some(x.clone()).opt_join_span(&Some(y.clone())) != Some(x.join_span(&y)) {
                fail_own(8, 0)
            }
            if x.join_span(&Some(y.clone())) != x.join_span(&y) || Some(x.clone()).opt_span() != Some(x.clone()) {
                fail_own(9, 0)
            }
        }
        3 => {
            let v = [x.clone(), y.clone(), z.clone()];
            let all = Some(x.join_span(&y).join_span(&z));
            if v[..].opt_span() != all {
                fail_own(10, 0)
            }
            if Vec::from(v.clone()).opt_span() != all {
                fail_own(11, 0)
            }
            if v[..0].opt_span().is_some() || Vec::<Span>::new().opt_span().is_some() {
                fail_own(12, 0)
            }
            if v[1..].opt_span() != Some(y.join_span(&z)) {
                fail_own(13, 0)
            }
            let o = [Some(x.clone()), None, Some(z.clone())];
            if o[..].opt_span() != Some(x.join_span(&z)) {
                fail_own(14, 0)
            }
            if o[1..].opt_span() != Some(z.clone()) || o[..2].opt_span() != Some(x.clone()) {
                fail_own(15, 0)
            }
        }
        4 => {
            if (x.clone(), y.clone()).span() != x.join_span(&y) {
                fail_own(16, 0)
            }
            if (x.clone(), none.clone()).span() != x {
                fail_own(17, 0)
            }
            if (x.clone(), y.clone(), z.clone()).span() != x.join_span(&y).join_span(&z) {
                fail_own(18, 0)
            }
            if (x.clone(), none.clone(), Some(z.clone())).span() != x.join_span(&z) {
                fail_own(19, 0)
            }
            if (x.clone(), Some(y.clone()), none.clone()).span() != x.join_span(&y) {
                fail_own(20, 0)
            }
            if Box::new(x.clone()).span() != x || x.span() != x {
                fail_own(21, 0)
            }
        }
        _ => {
            if (1usize, x.clone()).span() != x || (1usize, 2usize, x.clone()).span() != x || (1u32, x.clone()).span() != x || (1u64, x.clone()).span() != x {
                fail_own(22, 0)
            }
            if (1.5f64, x.clone()).span() != x || (true, x.clone()).span() != x || ("ab", x.clone()).span() != x {
                fail_own(23, 0)
            }
            if Identifier::new("abc", x.clone()).span() != x || sql_parse::SString::new("abc".into(), x.clone()).span() != x {
                fail_own(24, 0)
            }
        }
    }
    trace(x.join_span(&y).start);
    trace(x.join_span(&y).end);
    trace(z.start);
    cover(7);
}

#[no_mangle]
pub extern "C" fn h_slots() -> usize {
    sql_parse::verif::slot_count()
}
#[no_mangle]
pub extern "C" fn h_slot_ptr(i: usize) -> usize {
    sql_parse::verif::slot_text(i).as_ptr() as usize
}
#[no_mangle]
pub extern "C" fn h_slot_len(i: usize) -> usize {
    sql_parse::verif::slot_text(i).len()
}

/// Where a report is written to.
struct Sink {
    v: Vec<u8>,
}
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.v.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

fn lines_before(src: &[u8], n: usize) -> usize {
    let mut k = 1;
    for i in 0..n {
        if src[i] == b'\n' {
            k += 1
        }
    }
    k
}

/// Reads a report from the front.
struct Report<'a> {
    v: &'a [u8],
    at: usize,
}
impl Report<'_> {
    fn blank(&mut self) {
        while self.at < self.v.len() && !self.v[self.at].is_ascii_alphanumeric() && self.v[self.at] < 128 {
            self.at += 1
        }
    }
    fn here(&self, p: &[u8], at: usize) -> bool {
        if at + p.len() > self.v.len() {
            return false;
        }
        for i in 0..p.len() {
            if self.v[at + i] != p[i] {
                return false;
            }
        }
        true
    }
    fn word(&mut self, p: &[u8]) -> bool {
        self.blank();
        for i in 0..p.len() {
            if self.at + i >= self.v.len() || self.v[self.at + i].to_ascii_uppercase() != p[i] {
                return false;
            }
        }
        self.at += p.len();
        self.at >= self.v.len() || !self.v[self.at].is_ascii_alphanumeric()
    }
    /// the next text but white space
    fn text(&mut self, p: &[u8]) -> bool {
        while self.at < self.v.len() && (self.v[self.at] == b' ' || self.v[self.at] == b':' || self.v[self.at] == b'\n') && !self.here(p, self.at) {
            self.at += 1
        }
        if !self.here(p, self.at) {
            return false;
        }
        self.at += p.len();
        true
    }
    /// the next number
    fn number(&mut self, n: usize) -> bool {
        while self.at < self.v.len() && !self.v[self.at].is_ascii_digit() {
            self.at += 1
        }
        let mut k = 0;
        while self.at < self.v.len() && self.v[self.at].is_ascii_digit() {
            k = k * 10 + (self.v[self.at] - b'0') as usize;
            self.at += 1
        }
        k == n
    }
    /// the next place where a line of the report ends with the text
    fn find(&mut self, p: &[u8]) -> bool {
        if p.is_empty() {
            while self.at < self.v.len() && self.v[self.at] != b'\n' {
                self.at += 1
            }
            return true;
        }
        loop {
            if self.here(p, self.at) && (self.at + p.len() >= self.v.len() || self.v[self.at + p.len()] == b'\n') {
                self.at += p.len();
                return true;
            }
            if self.at >= self.v.len() || self.v[self.at] == b'\n' {
                return false;
            }
            self.at += 1
        }
    }
}

fn check_report(src: &str, issues: &Issues) {
    use core::fmt::Write;
    let mut s = Sink { v: Vec::with_capacity(1024) };
    if write!(s, "{}", issues).is_err() {
        fail_own(1, 0)
    }
    let all = issues.get();
    if issues.is_ok() != all.is_empty() {
        fail_own(2, 0)
    }
    let mut r = Report { v: &s.v, at: 0 };
    if all.is_empty() {
        // says that there is none
        if !r.word(b"NO") || !r.word(b"ISSUES") {
            fail_own(3, 0)
        }
    } else {
        let _ = r.word(b"ISSUES");
    }
    for (i, e) in all.iter().enumerate() {
        let level: &[u8] = match e.level {
            Level::Warning => b"WARNING",
            Level::Error => b"ERROR",
        };
        if !r.word(level) {
            fail_own(4, i);
            return;
        }
        if !r.text(e.message.as_bytes()) {
            fail_own(5, i);
            return;
        }
        if !r.number(lines_before(src.as_bytes(), e.span.start)) {
            fail_own(6, i);
            return;
        }
        if !r.find(&src.as_bytes()[e.span.start..e.span.end]) {
            fail_own(7, i);
            return;
        }
        for f in &e.fragments {
            if !r.text(f.message.as_bytes()) {
                fail_own(8, i);
                return;
            }
            if !r.number(lines_before(src.as_bytes(), f.span.start)) {
                fail_own(9, i);
                return;
            }
            if !r.find(&src.as_bytes()[f.span.start..f.span.end]) {
                fail_own(10, i);
                return;
            }
        }
    }
    r.blank();
    if r.at != r.v.len() {
        fail_own(11, all.len())
    }
    trace(s.v.len());
    let mut h = 0usize;
    for b in &s.v {
        h = h.wrapping_mul(31).wrapping_add(*b as usize)
    }
    trace(h);
    forget(s);
}

/// The report of the issues of a text.
/// parameters: property, -, dialect, arguments, flags
#[no_mangle]
pub extern "C-unwind" fn main_report() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let p = parse(inp.str(), param(2), param(3), param(4));
    check_report(inp.str(), &p.issues);
    forget(p);
    forget(inp);
}

/// The report of issues made by hand.
/// parameters: property, -, number of issues, number of fragments of each, levels, then where each
/// issue and fragment starts and how long it is
#[no_mangle]
pub extern "C-unwind" fn main_issues() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let src = inp.str();
    let (n, m, levels) = (param(2), param(3), param(4));
    let mut issues = Issues::new(src);
    let msg = ["one", "Two words", "3 and 4", "", "f\u{e6}rre"];
    let mut at = 5;
    let mut spans: [Span; 16] = core::array::from_fn(|_| 0..0);
    let mut k = 0;
    for i in 0..n {
        let s = cut(src, param(at), param(at + 1));
        at += 2;
        spans[k] = s.clone();
        k += 1;
        let mut h = if levels >> i & 1 != 0 { issues.err(msg[(i + levels) % 5], &s) } else { issues.warn(alloc::string::String::from(msg[(i + levels) % 5]), &s) };
        for j in 0..m {
            let s = cut(src, param(at), param(at + 1));
            at += 2;
            spans[k] = s.clone();
            k += 1;
            h.frag(msg[(i + j + 1 + levels) % 5], &s);
        }
    }
    // what was said is what is there
    let all = issues.get();
    if all.len() != n {
        fail_own(12, all.len())
    }
    k = 0;
    for (i, e) in all.iter().enumerate() {
        if (e.level == Level::Error) != (levels >> i & 1 != 0) || e.message.len() != msg[(i + levels) % 5].len() || e.message.as_bytes() != msg[(i + levels) % 5].as_bytes() {
            fail_own(13, i)
        }
        if e.span != spans[k] || e.sql_segment.as_ptr() != src[spans[k].clone()].as_ptr() || e.sql_segment.len() != spans[k].end - spans[k].start {
            fail_own(14, i)
        }
        k += 1;
        if e.fragments.len() != m {
            fail_own(15, i)
        }
        for (j, f) in e.fragments.iter().enumerate() {
            if f.message.as_bytes() != msg[(i + j + 1 + levels) % 5].as_bytes() || f.span != spans[k] || f.sql_segment.as_ptr() != src[spans[k].clone()].as_ptr() || f.sql_segment.len() != spans[k].end - spans[k].start {
                fail_own(16, i)
            }
            k += 1
        }
    }
    check_report(src, &issues);
    let v = issues.into_vec();
    if v.len() != n {
        fail_own(17, v.len())
    }
    forget(v);
    forget(inp);
}

/// A span of the text that starts and ends between characters.
fn cut(s: &str, a: usize, n: usize) -> Span {
    let mut a = if a > s.len() { s.len() } else { a };
    while !s.is_char_boundary(a) {
        a -= 1
    }
    let mut b = if a + n > s.len() { s.len() } else { a + n };
    while !s.is_char_boundary(b) {
        b += 1
    }
    a..b
}

/// Parsing a text when there are issues already, and twice.
/// parameters: property, -, dialect, arguments, flags, number of issues there are
#[no_mangle]
pub extern "C-unwind" fn main_history() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let src = inp.str();
    let (d, a, flags, n) = (param(2), param(3), param(4), param(5));
    let p = parse(src, d, a, flags);
    let o = options(d, a, flags);
    let mut issues = Issues::new(src);
    for i in 0..n {
        let s = cut(src, i, 3);
        if i & 1 == 0 {
            issues.err("earlier", &s).frag("part", &(0..0));
        } else {
            issues.warn("earlier", &s);
        }
    }
    // twice with the same options and the same list
    let mut base = n;
    for round in 0..2 {
        let stmts = if flags & MULTI != 0 {
            parse_statements(src, &mut issues, &o)
        } else {
            match parse_statement(src, &mut issues, &o) {
                Some(s) => {
                    let mut v = Vec::with_capacity(1);
                    v.push(s);
                    v
                }
                None => Vec::new(),
            }
        };
        let got = issues.get();
        let want = p.issues.get();
        if got.len() != base + want.len() {
            fail_own(1, round);
            return;
        }
        for i in 0..n {
            let e = &got[i];
            if e.span != cut(src, i, 3) || e.message.as_bytes() != b"earlier" || (e.level == Level::Error) != (i & 1 == 0) || e.fragments.len() != 1 - (i & 1) {
                fail_own(2, i)
            }
        }
        for i in 0..want.len() {
            let (x, y) = (&got[base + i], &want[i]);
            if x.level != y.level || x.span != y.span || x.message.len() != y.message.len() || x.fragments.len() != y.fragments.len() {
                fail_own(3, i);
                return;
            }
            for j in 0..x.fragments.len() {
                if x.fragments[j].span != y.fragments[j].span {
                    fail_own(3, i)
                }
            }
        }
        base += want.len();
        let m = Map { toks: &[], base: 0, clip: usize::MAX, by_token: false };
        let mut w = W::new(d);
        w.program(&stmts);
        if let Some(i) = diff_ev(&p.ev, &m, &w.ev, &m, NO_ARGS) {
            fail_own(4, tag_at(&p.ev, i))
        }
        forget((stmts, w.ev));
    }
    outcome(&p);
    forget((p, issues));
    forget(inp);
}

/// A sentence that goes wrong at one place: what is said about it is not about the text before.
/// parameters: property, -, dialect, arguments, flags, where it goes wrong
#[no_mangle]
pub extern "C-unwind" fn main_locate() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let at = param(5);
    let p = parse(inp.str(), param(2), param(3), param(4));
    let mut first = true;
    for (i, e) in p.issues.get().iter().enumerate() {
        if e.level != Level::Error {
            continue;
        }
        if param(0) == 37 {
            // the word that cannot stand where it stands is what the first error is about
            if e.span.start > at || (e.span.start < at && e.span.end <= at) {
                fail_own(1, i)
            }
            break;
        }
        if param(0) == 19 {
            // a word or mark that cannot stand there is named as a whole: `param(6)` bytes follow it
            if e.span.start <= at && e.span.end + param(6) != p.src.len() {
                fail_own(2, i)
            }
            break;
        }
        let before = if e.span.end == e.span.start { e.span.end < at } else { e.span.end <= at };
        // what follows from it may be about what has begun before
        if before && first && alternative(e.message.as_bytes(), 0).is_some() {
            fail_own(1, i)
        }
        first = false
    }
    outcome(&p);
    forget(p);
    forget(inp);
}

fn outside(p: &Parsed, a: usize, b: usize) -> Vec<Ev> {
    let mut v = Vec::with_capacity(p.ev.len());
    for e in &p.ev {
        match e.k {
            KW | ID | STR | INT | FLOAT | ARG | LIST | RAW | NUM2 | IVAL => (),
            _ => continue,
        }
        if e.a != usize::MAX && e.a < e.b && (e.b <= a || e.a >= b) {
            v.push(*e)
        }
    }
    v
}

/// A part of a sentence that stands in parentheses, right and wrong: a mistake in it stays in it.
/// parameters: property, -, dialect, arguments, flags, where the part starts, the bytes after it
#[no_mangle]
pub extern "C-unwind" fn main_contain() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let mut part = [""; 2];
    let n = split(inp.str(), &mut part);
    assume(n == 2);
    let (d, a, flags, from, rest) = (param(2), param(3), param(4), param(5), param(6));
    let x = parse(part[0], d, a, flags);
    let y = parse(part[1], d, a, flags);
    let (tx, ty) = (part[0].len() - rest, part[1].len() - rest);
    if x.errors > 0 {
        fail_own(5, 0)
    }
    if y.errors > 0 {
        let ex = outside(&x, from, tx);
        let ey = outside(&y, from, ty);
        let nx = ex.iter().take_while(|e| e.a < from).count();
        let ny = ey.iter().take_while(|e| e.a < from).count();
        let mx = Map { toks: &[], base: 0, clip: usize::MAX, by_token: false };
        if let Some(i) = diff_ev(&ex[..nx], &mx, &ey[..ny], &mx, NO_ARGS) {
            fail_own(1, i)
        }
        let mx = Map { toks: &[], base: tx, clip: usize::MAX, by_token: false };
        let my = Map { toks: &[], base: ty, clip: usize::MAX, by_token: false };
        if let Some(i) = diff_ev(&ex[nx..], &mx, &ey[ny..], &my, NO_ARGS) {
            fail_own(2, i)
        }
        for (i, e) in y.issues.get().iter().enumerate() {
            // it may be about what ends the part
            if e.level == Level::Error && (e.span.end < from || e.span.start > ty + 1) {
                fail_own(3, i)
            }
        }
    }
    outcome(&x);
    outcome(&y);
    forget((x, y));
    forget(inp);
}

/// The alternatives that the message of an error names, as far as they are words in capitals or
/// punctuation.
fn alternative<'a>(m: &'a [u8], n: usize) -> Option<&'a [u8]> {
    let pre = b"Expected '";
    let post = b"' here";
    if m.len() < pre.len() + post.len() || &m[..pre.len()] != pre || &m[m.len() - post.len()..] != post {
        return None;
    }
    let m = &m[pre.len()..m.len() - post.len()];
    let mut a = 0;
    let mut k = 0;
    loop {
        // up to the next separator outside quotes
        let mut b = a;
        let mut skip = 0;
        let mut quoted = false;
        while b < m.len() {
            if m[b] == b'\'' {
                quoted = !quoted
            } else if !quoted {
                for s in [&b" or "[..], b", ", b" | ", b" OR "] {
                    if m.len() - b >= s.len() && &m[b..b + s.len()] == s {
                        skip = s.len();
                        break;
                    }
                }
            }
            if skip > 0 {
                break;
            }
            b += 1
        }
        if k == n {
            let mut x = &m[a..b];
            if x.len() > 5 && &x[x.len() - 5..] == b" here" {
                x = &x[..x.len() - 5]
            }
            if x.len() > 1 && x[0] == b'\'' {
                x = &x[1..]
            }
            if x.len() > 1 && x[x.len() - 1] == b'\'' {
                x = &x[..x.len() - 1]
            }
            for c in x {
                if c.is_ascii_lowercase() {
                    return Some(b"");
                }
            }
            return Some(x);
        }
        if skip == 0 {
            return None;
        }
        a = b + skip;
        k += 1
    }
}

/// A sentence that goes wrong: what the first error asks for is accepted where it asks for it.
/// parameters: property, -, dialect, arguments, flags
#[no_mangle]
pub extern "C-unwind" fn main_expected() {
    let mut inp = Box::new(Input::new());
    inp.read();
    let (d, a, flags) = (param(2), param(3), param(4));
    let p = parse(inp.str(), d, a, flags);
    for e in p.issues.get().iter() {
        if e.level != Level::Error {
            continue;
        }
        let mut n = 0;
        while let Some(x) = alternative(e.message.as_bytes(), n) {
            n += 1;
            if x.is_empty() || flags & MULTI == 0 && (x == b";" || x == b"$$") {
                continue;
            }
            let at = e.span.start;
            let mut t: Vec<u8> = Vec::with_capacity(inp.len + x.len() + 2);
            t.extend_from_slice(&inp.buf[..at]);
            t.push(b' ');
            t.extend_from_slice(x);
            t.push(b' ');
            t.extend_from_slice(&inp.buf[at..inp.len]);
            let q = parse(text(&t), d, a, flags);
            for f in q.issues.get().iter() {
                if f.level != Level::Error {
                    continue;
                }
                // it is refused in turn (and not for a reason of its own, as for the dialect)
                if f.span.start <= at + x.len() && alternative(f.message.as_bytes(), 0).is_some() {
                    fail_own(1, lex::hash(x) as usize & 0xffff)
                }
                break;
            }
            forget(q);
            forget(t);
        }
        trace(n);
        break;
    }
    outcome(&p);
    forget(p);
    forget(inp);
}
