//! SMT back end: one z3 process per worker, SMT-LIB2 over a pipe.
use crate::expr::*;
use crate::ll::{Bin, Un};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub struct Z3 {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: Vec<bool>,
    buf: String,
    pub queries: u64,
    pub time: f64,
    pub sat: u64,
    pub unsat: u64,
    nvars: usize,
    pub log: Option<std::fs::File>,
}

pub fn z3_bin() -> String {
    std::env::var("SYMEX_Z3").unwrap_or_else(|_| "z3-new".into())
}

impl Z3 {
    pub fn new() -> Z3 {
        let bin = z3_bin();
        let mut child = Command::new(&bin).arg("-in").arg("-smt2").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn()
            .or_else(|_| Command::new("z3").arg("-in").arg("-smt2").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn())
            .expect("z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Z3 { child, inp, out, defined: vec![], buf: String::new(), queries: 0, time: 0.0, sat: 0, unsat: 0, nvars: 0, log: None }
    }
    pub fn reset(&mut self) {
        self.buf.clear();
        self.buf.push_str("(reset)\n(set-option :timeout 60000)\n");
        self.defined.clear();
        self.nvars = 0;
    }
    fn bv(v: u64, w: u32) -> String {
        format!("(_ bv{} {})", v, w)
    }
    fn define(&mut self, cx: &Ctx, id: u32) {
        let i = id as usize;
        if self.defined.len() <= i { self.defined.resize(cx.nodes.len().max(i + 1), false) }
        if self.defined[i] { return }
        self.defined[i] = true;
        let n = &cx.nodes[i];
        let kids: Vec<u32> = match &n.k {
            Kind::Const(_) | Kind::Tbl(..) => vec![],
            Kind::Bin(_, _, a, b) => vec![*a, *b],
            Kind::Un(_, _, a) | Kind::Not(a) => vec![*a],
            Kind::Ite(a, b, c) => vec![*a, *b, *c],
            Kind::Concat(v) | Kind::And(v) => v.to_vec(),
        };
        for k in kids { self.define(cx, k) }
        let b1 = |s: String| format!("(ite {} (_ bv1 1) (_ bv0 1))", s);
        let body = match &n.k {
            Kind::Const(c) => Self::bv(*c, n.w),
            Kind::Tbl(v, t) => {
                let mut runs: Vec<(usize, u64)> = vec![];
                for (i, x) in t.iter().enumerate() {
                    match runs.last_mut() { Some(l) if l.1 == *x => l.0 = i, _ => runs.push((i, *x)) }
                }
                let mut s = String::new();
                let k = runs.len();
                for (e, x) in &runs[..k - 1] { s.push_str(&format!("(ite (bvule x{} {}) {} ", v, Self::bv(*e as u64, 16), Self::bv(*x, n.w))) }
                s.push_str(&Self::bv(runs[k - 1].1, n.w));
                for _ in 0..k - 1 { s.push(')') }
                s
            }
            Kind::Bin(op, w, a, b) => {
                let (a, b) = (format!("n{}", a), format!("n{}", b));
                let f = |o: &str| format!("({} {} {})", o, a, b);
                match op {
                    Bin::Add => f("bvadd"), Bin::Sub => f("bvsub"), Bin::Mul => f("bvmul"), Bin::UDiv => f("bvudiv"), Bin::URem => f("bvurem"), Bin::SDiv => f("bvsdiv"), Bin::SRem => f("bvsrem"),
                    Bin::And => f("bvand"), Bin::Or => f("bvor"), Bin::Xor => f("bvxor"), Bin::Shl => f("bvshl"), Bin::LShr => f("bvlshr"), Bin::AShr => f("bvashr"),
                    Bin::UMin => format!("(ite (bvult {a} {b}) {a} {b})"), Bin::UMax => format!("(ite (bvugt {a} {b}) {a} {b})"),
                    Bin::SMin => format!("(ite (bvslt {a} {b}) {a} {b})"), Bin::SMax => format!("(ite (bvsgt {a} {b}) {a} {b})"),
                    Bin::USubSat => format!("(ite (bvult {a} {b}) {} (bvsub {a} {b}))", Self::bv(0, *w)),
                    Bin::UAddSat => format!("(ite (bvult (bvadd {a} {b}) {a}) (bvnot {}) (bvadd {a} {b}))", Self::bv(0, *w)),
                    Bin::Eq => b1(f("=")), Bin::Ne => b1(format!("(not (= {a} {b}))")),
                    Bin::Ult => b1(f("bvult")), Bin::Ule => b1(f("bvule")), Bin::Ugt => b1(f("bvugt")), Bin::Uge => b1(f("bvuge")),
                    Bin::Slt => b1(f("bvslt")), Bin::Sle => b1(f("bvsle")), Bin::Sgt => b1(f("bvsgt")), Bin::Sge => b1(f("bvsge")),
                    Bin::UAddO => b1(format!("(bvult (bvadd {a} {b}) {a})")), Bin::USubO => b1(f("bvult")),
                    Bin::UMulO => b1(format!("(not (= ((_ extract {} {}) (bvmul ((_ zero_extend {w}) {a}) ((_ zero_extend {w}) {b}))) {}))", 2 * w - 1, w, Self::bv(0, *w))),
                    _ => panic!("smt: {:?}", op),
                }
            }
            Kind::Un(op, w, a) => match op {
                Un::ZExt => format!("((_ zero_extend {}) n{})", n.w - w, a),
                Un::SExt => format!("((_ sign_extend {}) n{})", n.w - w, a),
                Un::Trunc => format!("((_ extract {} 0) n{})", n.w - 1, a),
                _ => panic!("smt: {:?}", op),
            },
            Kind::Ite(c, a, b) => format!("(ite (= n{} (_ bv1 1)) n{} n{})", c, a, b),
            Kind::Concat(v) => {
                let mut s = "(concat".to_string();
                for x in v.iter().rev() { s.push_str(&format!(" n{}", x)) }
                s.push(')');
                s
            }
            Kind::And(v) => {
                let mut s = "(bvand".to_string();
                for x in v.iter() { s.push_str(&format!(" n{}", x)) }
                s.push(')');
                s
            }
            Kind::Not(a) => format!("(bvnot n{})", a),
        };
        self.buf.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", id, n.w, body));
    }
    fn vars(&mut self, cx: &Ctx) {
        while self.nvars < cx.var_n.len() {
            self.buf.push_str(&format!("(declare-const x{} (_ BitVec 16))\n", self.nvars));
            self.nvars += 1;
        }
    }
    pub fn dom_text(cx: &Ctx, v: usize, d: &Bits) -> String {
        let r = d.ranges(cx.var_n[v]);
        let mut s = String::from("(or false");
        for (a, b) in r {
            if a == b { s.push_str(&format!(" (= x{} (_ bv{} 16))", v, a)) }
            else { s.push_str(&format!(" (and (bvule (_ bv{} 16) x{v}) (bvule x{v} (_ bv{} 16)))", a, b)) }
        }
        s.push(')');
        s
    }
    fn read_line(&mut self) -> String {
        let mut s = String::new();
        self.out.read_line(&mut s).expect("z3 read");
        if s.is_empty() { panic!("z3 died") }
        s
    }
    fn flush(&mut self) {
        if let Some(l) = &mut self.log { let _ = l.write_all(self.buf.as_bytes()); }
        self.inp.write_all(self.buf.as_bytes()).expect("z3 write");
        self.inp.flush().unwrap();
        self.buf.clear();
    }
    /// satisfiable? with model
    pub fn check(&mut self, cx: &Ctx, doms: &[std::rc::Rc<Bits>], pc: &[u32], extra: &[u32], extra_dom: Option<(usize, &Bits)>, model: bool) -> Result<Option<Vec<usize>>, String> {
        let t0 = Instant::now();
        self.vars(cx);
        for p in pc.iter().chain(extra) { self.define(cx, *p) }
        self.buf.push_str("(push)\n");
        for (v, d) in doms.iter().enumerate() { let t = Self::dom_text(cx, v, d); self.buf.push_str(&format!("(assert {})\n", t)) }
        if let Some((v, d)) = extra_dom { let t = Self::dom_text(cx, v, d); self.buf.push_str(&format!("(assert {})\n", t)) }
        for p in pc.iter().chain(extra) { self.buf.push_str(&format!("(assert (= n{} (_ bv1 1)))\n", p)) }
        self.buf.push_str("(check-sat)\n");
        self.flush();
        self.queries += 1;
        let r = self.read_line();
        let res = match r.trim() {
            "sat" => {
                self.sat += 1;
                if model && !cx.var_n.is_empty() {
                    let mut s = String::from("(get-value (");
                    for v in 0..cx.var_n.len() { s.push_str(&format!("x{} ", v)) }
                    s.push_str("))\n");
                    self.buf.push_str(&s);
                    self.flush();
                    let mut out = vec![0; cx.var_n.len()];
                    let mut txt = String::new();
                    loop {
                        txt.push_str(&self.read_line());
                        let o = txt.matches('(').count();
                        let c = txt.matches(')').count();
                        if o == c { break }
                    }
                    for part in txt.split("(x").skip(1) {
                        let sp = part.find(' ').unwrap();
                        let v: usize = part[..sp].parse().map_err(|_| txt.clone())?;
                        let h = part[sp + 1..].trim_start().trim_start_matches("#x");
                        let e = h.find(')').unwrap();
                        out[v] = usize::from_str_radix(&h[..e], 16).map_err(|_| txt.clone())?;
                    }
                    Ok(Some(out))
                } else { Ok(Some(vec![])) }
            }
            "unsat" => { self.unsat += 1; Ok(None) }
            x => Err(format!("z3: {}", x)),
        };
        self.buf.push_str("(pop)\n");
        self.time += t0.elapsed().as_secs_f64();
        res
    }
    /// named predicates used by a following all_unsat
    pub fn predef(&mut self, cx: &Ctx, defs: &str) {
        self.vars(cx);
        self.buf.push_str(defs);
    }
    /// are all the given (negated) obligations jointly unsatisfiable? Each is an SMT formula that must be unsat.
    pub fn all_unsat(&mut self, cx: &Ctx, negs: &[String], nodes: &[u32]) -> Result<bool, String> {
        let t0 = Instant::now();
        self.vars(cx);
        for p in nodes { self.define(cx, *p) }
        self.buf.push_str("(push)\n(assert (or false\n");
        for n in negs { self.buf.push_str(n); self.buf.push('\n'); }
        self.buf.push_str("))\n(check-sat)\n");
        self.flush();
        self.queries += 1;
        let r = self.read_line();
        self.buf.push_str("(pop)\n");
        self.time += t0.elapsed().as_secs_f64();
        match r.trim() { "unsat" => { self.unsat += 1; Ok(true) } "sat" => { self.sat += 1; Ok(false) } x => Err(format!("z3: {}", x)) }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); }
}
