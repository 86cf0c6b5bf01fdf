//! The symbolic executor proper.
use crate::expr::*;
use crate::ll::*;
use crate::z3::Z3;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

const PG: usize = 512;
const STACK_BASE: u64 = 0x2000_0000;
const HEAP_BASE: u64 = 0x4000_0000;
const SCRATCH: u64 = STACK_BASE; // start of the stack region, used by merged calls
const STACK_START: u64 = STACK_BASE + 4096;

#[derive(Clone)]
pub struct Page {
    d: [u8; PG],
    s: Option<Box<[u64; PG]>>, // id << 8 | byte index; 0 = concrete
}
const ZERO_PAGE: Page = Page { d: [0; PG], s: None };

#[derive(Clone, Default)]
struct Region(Vec<Option<Rc<Chunk>>>);
const CH: usize = 32;
/// Pages in groups, so that copying a state copies little.
#[derive(Clone, Default)]
struct Chunk([Option<Rc<Page>>; CH]);

#[derive(Clone)]
pub struct Frame {
    func: u32,
    pc: u32,
    ret_d: u32,
    sp_save: u64,
    regs: Vec<V>,
}

#[derive(Clone)]
pub struct State {
    glob: Region,
    stack: Region,
    heap: Region,
    frames: Vec<Rc<Frame>>,
    cur: Frame,
    sp: u64,
    hp: u64,
    pub doms: Vec<Rc<Bits>>,
    pub pc: Vec<u32>,
    touched: u64,
    model: Option<Rc<Vec<usize>>>,
    steps: u64,
    trace: Vec<V>,
    reports: Vec<(u64, V)>,
    covers: u64,
    depth: u32,
}

#[derive(Clone, Debug)]
pub enum End {
    Ok,
    Panic(String),
    Budget,
    Infeasible,
    Error(String),
}

#[derive(Clone)]
pub enum InByte {
    C(u8),
    /// byte k of symbolic input variable
    V(V),
}

pub struct Violation {
    pub kind: String,
    pub code: u64,
    pub detail: u64,
    pub model: Vec<usize>,
    pub stack: String,
    pub count: u64,
    pub trace: Vec<u64>,
}

#[derive(Default)]
pub struct JobOut {
    pub paths: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_path_steps: u64,
    pub viol: BTreeMap<(String, u64, u64), Violation>,
    pub covers: u64,
    pub z3_queries: u64,
    pub z3_time: f64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub coverage_proved: bool,
    pub incomplete: Option<String>,
    pub errors: Vec<String>,
    pub samples: Vec<(Vec<usize>, Vec<u64>)>,
    pub term_obl: u64,
    pub fin_decisions: u64,
}

pub struct Limits {
    pub path_steps: u64,
    pub max_paths: u64,
    pub deadline: Instant,
    pub samples: usize,
}

pub const SP_MERGE: u8 = 1;
pub const SP_FMT: u8 = 2;

pub struct Worker<'m> {
    pub m: &'m Module,
    pub cx: Ctx,
    z3: Option<Z3>,
    stack: Vec<State>,
    pub cov: Vec<u64>,
    pub input: Vec<InByte>,
    pub params: Vec<V>,
    /// format messages instead of leaving them empty
    pub real_fmt: bool,
    pub out: JobOut,
    merge_cache: HashMap<(u32, Vec<u64>), (Vec<u64>, Vec<u8>)>,
    pool: Vec<Vec<V>>,
    pathsets: Vec<(Vec<Rc<Bits>>, Vec<u32>)>,
    mergetbl: HashMap<(u32, Vec<V>), (Vec<V>, Vec<V>)>,
}

enum Br { T, F, Both, None }

impl<'m> Worker<'m> {
    pub fn new(m: &'m Module) -> Self {
        Worker {
            m, cx: Ctx::new(), z3: None, stack: vec![], cov: vec![0; (m.nblocks as usize + 63) / 64], input: vec![], params: vec![], real_fmt: false,
            out: JobOut::default(), merge_cache: HashMap::new(), pool: vec![], pathsets: vec![], mergetbl: HashMap::new(),
        }
    }
    pub fn z3(&mut self) -> &mut Z3 {
        if self.z3.is_none() { self.z3 = Some(Z3::new()) ; self.z3.as_mut().unwrap().reset(); }
        self.z3.as_mut().unwrap()
    }
    /// the merge cache only grows; restart the worker when it gets large
    pub fn merge_big(&self) -> bool { self.merge_cache.len() > 200_000 }
    pub fn begin_job(&mut self) {
        self.cx = Ctx::new();
        self.out = JobOut::default();
        self.pathsets.clear();
        self.stack.clear();
        self.params.clear();
        self.input.clear();
        self.mergetbl.clear();
        if let Some(z) = &mut self.z3 { z.reset(); z.queries = 0; z.time = 0.0; z.sat = 0; z.unsat = 0; }
    }
    fn fresh_state(&self) -> State {
        State {
            glob: Region(vec![]), stack: Region(vec![]), heap: Region(vec![]), frames: vec![],
            cur: Frame { func: 0, pc: 0, ret_d: NOREG, sp_save: 0, regs: vec![] },
            sp: STACK_START, hp: HEAP_BASE,
            doms: self.cx.var_n.iter().map(|n| Rc::new(Bits::full(*n))).collect(),
            pc: vec![], touched: 0, model: None, steps: 0, trace: vec![], reports: vec![], covers: 0, depth: 0,
        }
    }
    fn regs(&mut self, n: usize) -> Vec<V> {
        match self.pool.pop() {
            Some(mut v) => { if v.len() < n { v.resize(n, V::c(0)) } else { v.truncate(n) } v }
            None => vec![V::c(0); n],
        }
    }
    fn enter(&mut self, st: &mut State, f: u32, args: &[V], ret_d: u32) {
        let fun = &self.m.funcs[f as usize];
        assert!(fun.defined, "call of undefined {}", fun.name);
        let mut r = self.regs(fun.nregs as usize);
        r[..args.len()].copy_from_slice(args);
        st.cur = Frame { func: f, pc: 0, ret_d, sp_save: st.sp, regs: r };
        st.depth += 1;
        let b = fun.block_base as usize;
        self.cov[b / 64] |= 1 << (b % 64);
    }

    // ---- memory -------------------------------------------------------
    #[inline(always)]
    fn region(a: u64) -> u32 {
        if a >= HEAP_BASE { 2 } else if a >= STACK_BASE { 1 } else { 0 }
    }
    fn page<'a>(st: &'a State, a: u64) -> (Option<&'a Rc<Page>>, usize, u32) {
        let (r, base, k) = match Self::region(a) { 2 => (&st.heap, HEAP_BASE, 2), 1 => (&st.stack, STACK_BASE, 1), _ => (&st.glob, GLOB_BASE, 0) };
        let off = (a - base) as usize;
        (match r.0.get(off / PG / CH) { Some(Some(c)) => c.0[off / PG % CH].as_ref(), _ => None }, off % PG, k)
    }
    fn page_mut<'a>(&self, st: &'a mut State, a: u64) -> (&'a mut Page, usize) {
        let k = Self::region(a);
        let (r, base) = match k { 2 => (&mut st.heap, HEAP_BASE), 1 => (&mut st.stack, STACK_BASE), _ => (&mut st.glob, GLOB_BASE) };
        let off = (a - base) as usize;
        let i = off / PG;
        if r.0.len() <= i / CH { r.0.resize(i / CH + 1, None) }
        let c = r.0[i / CH].get_or_insert_with(|| Rc::new(Chunk::default()));
        let slot = &mut Rc::make_mut(c).0[i % CH];
        if slot.is_none() {
            let mut p = ZERO_PAGE;
            if k == 0 {
                let s = i * PG;
                let e = (s + PG).min(self.m.image.len());
                if s < e { p.d[..e - s].copy_from_slice(&self.m.image[s..e]) }
            }
            *slot = Some(Rc::new(p));
        }
        (Rc::make_mut(slot.as_mut().unwrap()), off % PG)
    }
    fn check_addr(st: &State, a: u64, n: u64, m: &Module) -> Result<(), String> {
        let e = a.wrapping_add(n);
        let ok = (a >= GLOB_BASE && e <= GLOB_BASE + m.image.len() as u64) || (a >= STACK_START && e <= st.sp) || (a >= HEAP_BASE && e <= st.hp) || (a >= SCRATCH && e <= SCRATCH + 4096);
        if ok { Ok(()) } else { Err(format!("memory access outside any object: {:#x}+{}", a, n)) }
    }
    #[inline]
    fn load_raw(&mut self, st: &State, a: u64, bits: u32) -> Result<V, String> {
        let n = ((bits + 7) / 8) as usize;
        let (p, o, k) = Self::page(st, a);
        if o + n <= PG {
            match p {
                Some(p) => {
                    if p.s.is_none() {
                        let v = if o + 8 <= PG { u64::from_le_bytes(p.d[o..o + 8].try_into().unwrap()) } else { let mut t = [0u8; 8]; t[..n].copy_from_slice(&p.d[o..o + n]); u64::from_le_bytes(t) };
                        Self::bound(st, a, n, self.m)?;
                        return Ok(V::c(mask(v, bits)));
                    }
                }
                None => {
                    Self::check_addr(st, a, n as u64, self.m)?;
                    if k == 0 {
                        let i = (a - GLOB_BASE) as usize;
                        let mut t = [0u8; 8];
                        t[..n].copy_from_slice(&self.m.image[i..i + n]);
                        return Ok(V::c(mask(u64::from_le_bytes(t), bits)));
                    }
                    return Ok(V::c(0));
                }
            }
        }
        Self::check_addr(st, a, n as u64, self.m)?;
        let mut b = [V::c(0); 8];
        let mut raw = [0u64; 8];
        let mut anys = false;
        for i in 0..n {
            let (p, o, k) = Self::page(st, a + i as u64);
            match p {
                Some(p) => {
                    let s = p.s.as_ref().map(|s| s[o]).unwrap_or(0);
                    if s != 0 { anys = true; raw[i] = s } else { b[i] = V::c(p.d[o] as u64) }
                }
                None => if k == 0 { b[i] = V::c(self.m.image[(a - GLOB_BASE) as usize + i] as u64) },
            }
        }
        if !anys {
            let v = (0..n).fold(0u64, |x, i| x | b[i].c << (8 * i));
            return Ok(V::c(mask(v, bits)));
        }
        // whole value?
        let id = (raw[0] >> 8) as u32;
        if raw[0] & 255 == 0 && id != 0 && (0..n).all(|i| raw[i] == (id as u64) << 8 | i as u64) {
            let w = self.cx.nodes[id as usize].w;
            if w == bits { return Ok(V::s(id)); }
            if (w + 7) / 8 == n as u32 { return Ok(if bits < w { self.cx.un(Un::Trunc, w, bits, V::s(id)) } else { self.cx.un(Un::ZExt, w, bits, V::s(id)) }); }
        }
        for i in 0..n {
            if raw[i] != 0 {
                let v = self.cx.byte((raw[i] >> 8) as u32, (raw[i] & 255) as u32);
                b[i] = v;
            }
        }
        let v = if n == 1 { b[0] } else { self.cx.concat(&b[..n]) };
        let full = 8 * n as u32;
        if n == 1 && v.s != 0 {
            let w = self.cx.nodes[v.s as usize].w;
            return Ok(if w == bits { v } else if w < bits { self.cx.un(Un::ZExt, w, bits, v) } else { self.cx.un(Un::Trunc, w, bits, v) });
        }
        Ok(if bits < full { self.cx.un(Un::Trunc, full, bits, v) } else { v })
    }
    #[inline(always)]
    fn bound(st: &State, a: u64, n: usize, m: &Module) -> Result<(), String> {
        Self::check_addr(st, a, n as u64, m)
    }
    #[inline]
    fn store_raw(&mut self, st: &mut State, a: u64, bits: u32, v: V) -> Result<(), String> {
        let n = ((bits + 7) / 8) as usize;
        Self::check_addr(st, a, n as u64, self.m)?;
        if Self::region(a) == 0 && false { return Err("store to constant".into()); }
        let o = ((a - match Self::region(a) { 2 => HEAP_BASE, 1 => STACK_BASE, _ => GLOB_BASE }) as usize) % PG;
        if o + n <= PG {
            let (p, o) = self.page_mut(st, a);
            if v.s == 0 {
                let b = v.c.to_le_bytes();
                p.d[o..o + n].copy_from_slice(&b[..n]);
                if let Some(s) = &mut p.s { for i in 0..n { s[o + i] = 0 } }
            } else {
                let s = p.s.get_or_insert_with(|| Box::new([0; PG]));
                for i in 0..n { s[o + i] = (v.s as u64) << 8 | i as u64 }
            }
        } else {
            for i in 0..n {
                let (p, o) = self.page_mut(st, a + i as u64);
                if v.s == 0 {
                    p.d[o] = (v.c >> (8 * i)) as u8;
                    if let Some(s) = &mut p.s { s[o] = 0 }
                } else {
                    let s = p.s.get_or_insert_with(|| Box::new([0; PG]));
                    s[o] = (v.s as u64) << 8 | i as u64;
                }
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 || dst == src { return Ok(()); }
        Self::check_addr(st, src, n, self.m)?;
        Self::check_addr(st, dst, n, self.m)?;
        let n = n as usize;
        let mut d = vec![0u8; n];
        let mut s: Option<Vec<u64>> = None;
        let mut i = 0;
        while i < n {
            let (p, o, k) = Self::page(st, src + i as u64);
            let l = (PG - o).min(n - i);
            match p {
                Some(p) => {
                    d[i..i + l].copy_from_slice(&p.d[o..o + l]);
                    if let Some(x) = &p.s {
                        if x[o..o + l].iter().any(|y| *y != 0) {
                            s.get_or_insert_with(|| vec![0; n])[i..i + l].copy_from_slice(&x[o..o + l]);
                        }
                    }
                }
                None => if k == 0 { let g = (src - GLOB_BASE) as usize + i; d[i..i + l].copy_from_slice(&self.m.image[g..g + l]) },
            }
            i += l;
        }
        let mut i = 0;
        while i < n {
            let (p, o) = self.page_mut(st, dst + i as u64);
            let l = (PG - o).min(n - i);
            p.d[o..o + l].copy_from_slice(&d[i..i + l]);
            match &s {
                Some(s) => {
                    let seg = &s[i..i + l];
                    if seg.iter().any(|x| *x != 0) { p.s.get_or_insert_with(|| Box::new([0; PG]))[o..o + l].copy_from_slice(seg) }
                    else if let Some(x) = &mut p.s { for k in 0..l { x[o + k] = 0 } }
                }
                None => if let Some(x) = &mut p.s { for k in 0..l { x[o + k] = 0 } },
            }
            i += l;
        }
        Ok(())
    }
    fn set(&mut self, st: &mut State, dst: u64, v: V, n: u64) -> Result<(), String> {
        for i in 0..n { self.store_raw(st, dst + i, 8, v)? }
        Ok(())
    }

    // ---- constraints --------------------------------------------------
    /// value under the current domains, if it is determined
    fn simp(&mut self, st: &State, v: V) -> V {
        if v.s == 0 { return v; }
        match &self.cx.nodes[v.s as usize].k {
            Kind::Tbl(x, t) => {
                let d = &st.doms[*x as usize];
                let mut it = d.iter();
                let f = t[it.next().unwrap()];
                for i in it { if t[i] != f { return v; } }
                V::c(f)
            }
            _ => {
                let deps = self.cx.nodes[v.s as usize].deps;
                let mut asg = vec![0; st.doms.len()];
                for x in 0..st.doms.len() {
                    if deps >> x & 1 != 0 {
                        if st.doms[x].count() != 1 { return v; }
                        asg[x] = st.doms[x].first();
                    }
                }
                V::c(self.cx.eval(v.s, &asg))
            }
        }
    }
    fn model_ok(&self, st: &State, m: &[usize], extra: &[u32], ed: Option<(usize, &Bits)>) -> bool {
        st.doms.iter().enumerate().all(|(i, d)| d.get(m[i])) && ed.map(|(v, b)| b.get(m[v])).unwrap_or(true)
            && st.pc.iter().chain(extra).all(|p| self.cx.eval(*p, m) != 0)
    }
    /// Feasibility by search where the constraints fall apart into small parts. Only which paths are
    /// followed depends on it: that the paths cover every input is left to the solver.
    fn search(&self, st: &State, extra: &[u32], ed: Option<(usize, &Bits)>) -> Option<Option<Vec<usize>>> {
        let n = st.doms.len();
        let mut dom: Vec<Bits> = st.doms.iter().map(|d| (**d).clone()).collect();
        if let Some((v, b)) = ed { for (x, y) in dom[v].0.iter_mut().zip(b.0.iter()) { *x &= *y } }
        let mut asg = vec![0usize; n];
        for i in 0..n { if dom[i].is_empty() { return Some(None) } asg[i] = dom[i].first(); }
        let cons: Vec<(u32, u64)> = st.pc.iter().chain(extra).map(|p| (*p, self.cx.nodes[*p as usize].deps)).collect();
        // components
        let mut comp: Vec<(u64, Vec<u32>)> = vec![];
        for (p, d) in &cons {
            let mut d2 = *d;
            let mut l = vec![*p];
            comp.retain(|c| if c.0 & d2 != 0 { d2 |= c.0; l.extend(&c.1); false } else { true });
            // merging may connect further ones
            loop {
                let mut more = false;
                comp.retain(|c| if c.0 & d2 != 0 { d2 |= c.0; l.extend(&c.1); more = true; false } else { true });
                if !more { break }
            }
            comp.push((d2, l));
        }
        for (d, l) in &comp {
            let vars: Vec<usize> = (0..n).filter(|x| d >> x & 1 != 0).collect();
            let mut prod = 1usize;
            for v in &vars { prod = prod.saturating_mul(dom[*v].count()); }
            if prod.saturating_mul(l.len()) > 60_000 { return None }
        }
        for (d, l) in &comp {
            let vars: Vec<usize> = (0..n).filter(|x| d >> x & 1 != 0).collect();
            let lists: Vec<Vec<usize>> = vars.iter().map(|v| dom[*v].iter().collect()).collect();
            let mut idx = vec![0usize; vars.len()];
            'all: loop {
                for (k, v) in vars.iter().enumerate() { asg[*v] = lists[k][idx[k]] }
                if l.iter().all(|p| self.cx.eval(*p, &asg) != 0) { break }
                let mut k = 0;
                loop {
                    if k == idx.len() { return Some(None) }
                    idx[k] += 1;
                    if idx[k] < lists[k].len() { continue 'all }
                    idx[k] = 0;
                    k += 1;
                }
            }
        }
        Some(Some(asg))
    }
    /// SMT feasibility of the state's constraints plus `extra`/`ed`
    fn sat(&mut self, st: &mut State, extra: &[u32], ed: Option<(usize, &Bits)>) -> Result<bool, String> {
        if let Some(m) = &st.model {
            if self.model_ok(st, m, extra, ed) { return Ok(true); }
        }
        if let Some(m) = self.search(st, extra, ed) {
            return Ok(match m {
                Some(m) => { if extra.is_empty() && ed.is_none() { st.model = Some(Rc::new(m)) } true }
                None => false,
            });
        }
        let cx = std::mem::replace(&mut self.cx, Ctx::new());
        let r = self.z3().check(&cx, &st.doms, &st.pc, extra, ed, true);
        self.cx = cx;
        match r? {
            Some(m) => { if extra.is_empty() && ed.is_none() { st.model = Some(Rc::new(m)) } Ok(true) }
            None => Ok(false),
        }
    }
    /// add `cond == truth`; false if infeasible
    fn assume(&mut self, st: &mut State, v: V, truth: bool) -> Result<bool, String> {
        let v = self.simp(st, v);
        if v.s == 0 { return Ok((v.c != 0) == truth); }
        let k = self.cx.nodes[v.s as usize].k.clone();
        match k {
            Kind::Not(a) => self.assume(st, V::s(a), !truth),
            Kind::Tbl(x, t) => {
                let mut b = st.doms[x as usize].empty_like();
                for i in st.doms[x as usize].iter() { if (t[i] != 0) == truth { b.set(i) } }
                if b.is_empty() { return Ok(false); }
                st.doms[x as usize] = Rc::new(b);
                if st.touched >> x & 1 != 0 { return self.sat(st, &[], None); }
                Ok(true)
            }
            Kind::And(l) if truth => {
                for a in l.iter() { if !self.assume(st, V::s(*a), true)? { return Ok(false); } }
                Ok(true)
            }
            _ => {
                let n = if truth { v } else { V::s(self.cx.mk(Kind::Not(v.s), 1)) };
                st.touched |= self.cx.nodes[v.s as usize].deps;
                st.pc.push(n.s);
                self.sat(st, &[], None)
            }
        }
    }
    fn branch(&mut self, st: &mut State, v: V, child: &mut Option<State>) -> Result<Br, String> {
        let v = self.simp(st, v);
        if v.s == 0 { return Ok(if v.c != 0 { Br::T } else { Br::F }); }
        self.out.fin_decisions += 1;
        let mut s2 = st.clone();
        let t = self.assume(st, v, true)?;
        let f = self.assume(&mut s2, v, false)?;
        Ok(match (t, f) {
            (true, true) => { self.out.forks += 1; *child = Some(s2); Br::Both }
            (true, false) => Br::T,
            (false, true) => { *st = s2; Br::F }
            _ => Br::None,
        })
    }
    /// Determine a concrete value; if several are possible, fork (children pushed, the
    /// current state keeps one value) - the caller re-executes the instruction.
    fn need(&mut self, st: &mut State, v: V) -> Result<Option<u64>, String> {
        let v = self.simp(st, v);
        if v.s == 0 { return Ok(Some(v.c)); }
        self.out.fin_decisions += 1;
        if let Some((x, t)) = self.cx.single(v).map(|x| (x.0, x.1.clone())) {
            let d = st.doms[x as usize].clone();
            let mut groups: BTreeMap<u64, Bits> = BTreeMap::new();
            for i in d.iter() { groups.entry(t[i]).or_insert_with(|| d.empty_like()).set(i) }
            let mut list: Vec<Bits> = vec![];
            for (_, b) in groups {
                if st.touched >> x & 1 != 0 && !self.sat(st, &[], Some((x as usize, &b)))? { continue }
                list.push(b);
            }
            if list.is_empty() { return Err("INFEASIBLE".into()); }
            for b in list.drain(1..).rev() {
                let mut s2 = st.clone();
                s2.doms[x as usize] = Rc::new(b);
                self.out.forks += 1;
                self.stack.push(s2);
            }
            st.doms[x as usize] = Rc::new(list.pop().unwrap());
            return Ok(None);
        }
        // several variables: take a model
        let m = self.pick(st)?.ok_or("INFEASIBLE".to_string())?;
        let val = self.cx.eval(v.s, &m);
        let w = self.cx.nodes[v.s as usize].w;
        let eq = self.cx.bin(Bin::Eq, w, v, V::c(val));
        let mut s2 = st.clone();
        if self.assume(&mut s2, eq, false)? { self.out.forks += 1; self.stack.push(s2) }
        if !self.assume(st, eq, true)? { return Err("INFEASIBLE".into()); }
        if self.simp(st, v).s != 0 {
            // equality recorded as a constraint but not by domains: enumerate the variables
            let deps = self.cx.nodes[v.s as usize].deps;
            for x in 0..st.doms.len() {
                if deps >> x & 1 != 0 && st.doms[x].count() > 1 {
                    let vals: Vec<u64> = (0..self.cx.var_n[x] as u64).collect();
                    let t = self.cx.tbl(x as u32, 16, vals);
                    self.need(st, t)?;
                    return Ok(None);
                }
            }
        }
        Ok(None)
    }
    pub fn pick(&mut self, st: &mut State) -> Result<Option<Vec<usize>>, String> {
        if st.pc.is_empty() {
            return Ok(Some(st.doms.iter().map(|d| d.first()).collect()));
        }
        if let Some(m) = st.model.clone() { if self.model_ok(st, &m, &[], None) { return Ok(Some(m.to_vec())); } }
        if !self.sat(st, &[], None)? { return Ok(None); }
        Ok(st.model.as_ref().map(|m| m.to_vec()))
    }

    // ---- merged calls -------------------------------------------------
    fn run_concrete(&mut self, f: u32, args: &[V], sret: u64) -> Result<(Vec<u64>, Vec<u8>), String> {
        let key = (f, args.iter().map(|a| a.c).collect::<Vec<_>>());
        if let Some(r) = self.merge_cache.get(&key) { return Ok(r.clone()); }
        let mut st = self.fresh_state();
        let keep = std::mem::take(&mut self.stack);
        for k in 0..(4096 / PG as u64) { self.page_mut(&mut st, SCRATCH + k * PG as u64); }
        self.enter(&mut st, f, args, 0);
        let mut rets = vec![];
        let e = self.run_state(&mut st, Some(&mut rets), u64::MAX, true);
        self.stack = keep;
        match e {
            End::Ok => {}
            e => return Err(format!("merged call {} ended with {:?}", self.m.funcs[f as usize].name, e)),
        }
        let mut mem = vec![];
        for i in 0..sret { let v = self.load_raw(&st, SCRATCH + i, 8)?; mem.push(v.c as u8) }
        let r = (rets.iter().map(|v| v.c).collect::<Vec<_>>(), mem);
        self.merge_cache.insert(key, r.clone());
        Ok(r)
    }
    pub fn call_concrete(&mut self, f: u32, args: &[u64]) -> Vec<u64> {
        let a: Vec<V> = args.iter().map(|x| V::c(*x)).collect();
        self.run_concrete(f, &a, 0).expect("concrete call").0
    }
    pub fn read_image(&self, a: u64, n: usize) -> Vec<u8> {
        let i = (a - GLOB_BASE) as usize;
        self.m.image[i..i + n].to_vec()
    }
    /// Execute a pure function for every value of its (single-variable) argument and
    /// merge the results into value tables.
    fn merged(&mut self, st: &mut State, f: u32, args: &[V]) -> Result<Option<Vec<V>>, String> {
        let sret = self.m.funcs[f as usize].sret;
        let rbits = self.m.funcs[f as usize].ret_bits.clone();
        let ai = args.len() - 1;
        let a = self.simp(st, args[ai]);
        let var = match self.cx.single(a) { Some((x, t)) => Some((x, t.clone())), None if a.s == 0 => None, _ => { self.need(st, a)?; return Ok(None); } };
        let mut ca: Vec<V> = args.to_vec();
        let dst = if sret > 0 {
            let d = match self.need(st, args[0])? { Some(d) => d, None => return Ok(None) };
            ca[0] = V::c(SCRATCH);
            d
        } else { 0 };
        let (rets, words) = match var {
            None => {
                ca[ai] = a;
                let (r, mem) = self.run_concrete(f, &ca, sret)?;
                let words = (0..(sret + 7) / 8).map(|i| { let mut t = [0u8; 8]; let s = (i * 8) as usize; let e = (s + 8).min(sret as usize); t[..e - s].copy_from_slice(&mem[s..e]); V::c(u64::from_le_bytes(t)) }).collect::<Vec<_>>();
                (r.iter().map(|x| V::c(*x)).collect::<Vec<_>>(), words)
            }
            Some((x, t)) => {
                let key = (f, vec![a]);
                if let Some(r) = self.mergetbl.get(&key) { r.clone() } else {
                    let n = t.len();
                    let mut rt: Vec<Vec<u64>> = vec![];
                    let mut mt: Vec<Vec<u64>> = vec![vec![0; n]; ((sret + 7) / 8) as usize];
                    for i in 0..n {
                        ca[ai] = V::c(t[i]);
                        let (r, mem) = self.run_concrete(f, &ca, sret)?;
                        if rt.is_empty() { rt = vec![vec![0; n]; r.len()] }
                        for (k, v) in r.iter().enumerate() { rt[k][i] = *v }
                        for k in 0..mt.len() { let mut b = [0u8; 8]; let s = k * 8; let e = (s + 8).min(sret as usize); b[..e - s].copy_from_slice(&mem[s..e]); mt[k][i] = u64::from_le_bytes(b) }
                    }
                    let r: Vec<V> = rt.into_iter().enumerate().map(|(k, v)| self.cx.tbl(x, rbits[k], v)).collect();
                    let w: Vec<V> = mt.into_iter().map(|v| self.cx.tbl(x, 64, v)).collect();
                    self.mergetbl.insert(key, (r.clone(), w.clone()));
                    (r, w)
                }
            }
        };
        for (i, w) in words.iter().enumerate() {
            let left = sret - 8 * i as u64;
            if left >= 8 { self.store_raw(st, dst + 8 * i as u64, 64, *w)? }
            else { for k in 0..left { let b = if w.s == 0 { V::c((w.c >> (8 * k)) & 255) } else { self.cx.byte(w.s, k as u32) }; self.store_raw(st, dst + 8 * i as u64 + k, 8, b)? } }
        }
        Ok(Some(rets))
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut out = vec![];
        let mut fr: Vec<(u32, u32)> = st.frames.iter().map(|f| (f.func, f.pc)).collect();
        fr.push((st.cur.func, st.cur.pc));
        for (f, pc) in fr.into_iter().rev() {
            let fun = &self.m.funcs[f as usize];
            let pcs = (pc as usize).min(fun.dbg.len().saturating_sub(1));
            let loc = self.m.dbg_loc.get(&fun.dbg[pcs]).map(|(a, b)| format!("{}:{}", self.m.files[*a as usize].rsplit('/').next().unwrap(), b)).unwrap_or_default();
            out.push(loc);
            if out.len() > 14 { break }
        }
        out.join(" < ")
    }

    // ---- main loop ----------------------------------------------------
    fn run_state(&mut self, st: &mut State, mut rets: Option<&mut Vec<V>>, budget: u64, mini: bool) -> End {
        let m = self.m;
        macro_rules! tri { ($e:expr) => { match $e { Ok(v) => v, Err(e) => { if e == "INFEASIBLE" { return End::Infeasible } return End::Error(format!("{} [{}]", e, self.backtrace(st))) } } } }
        'fun: loop {
            let fun = &m.funcs[st.cur.func as usize];
            let code = &fun.code[..];
            let consts = &fun.consts[..];
            let mut pc = st.cur.pc as usize;
            macro_rules! get { ($o:expr) => {{ let o = $o; if o & CONST != 0 { V::c(consts[(o & !CONST) as usize]) } else { st.cur.regs[o as usize] } }} }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.cur.regs[$d as usize] = v; }} }
            // concretise or re-execute
            macro_rules! need { ($v:expr) => {{ let v = $v; if v.s == 0 { v.c } else { st.cur.pc = pc as u32; match tri!(self.need(st, v)) { Some(c) => c, None => continue 'fun } } }} }
            loop {
                st.steps += 1;
                match &code[pc] {
                    Inst::Bin { op, w, d, a, b } => {
                        let (a, b) = (get!(*a), get!(*b));
                        if a.s == 0 && b.s == 0 {
                            if b.c == 0 && matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) { return End::Error("division by zero".into()) }
                            let r = match op {
                                Bin::Add => mask(a.c.wrapping_add(b.c), *w),
                                Bin::Eq => (a.c == b.c) as u64,
                                Bin::Ult => (a.c < b.c) as u64,
                                _ => bin_c(*op, *w, a.c, b.c),
                            };
                            set!(*d, V::c(r));
                        } else {
                            // floating point is evaluated, not encoded: one value at a time
                            if !bin_smt(*op) && !(self.cx.single(a).is_some() && (b.s == 0 || self.cx.single(b).map(|x| x.0) == self.cx.single(a).map(|x| x.0)) || a.s == 0 && self.cx.single(b).is_some()) {
                                need!(a);
                                need!(b);
                            }
                            let (a, b) = (self.simp(st, a), self.simp(st, b));
                            let r = self.cx.bin(*op, *w, a, b);
                            set!(*d, r);
                        }
                    }
                    Inst::Un { op, w, to, d, a } => {
                        let a = get!(*a);
                        if a.s != 0 && !matches!(op, Un::ZExt | Un::SExt | Un::Trunc) && self.cx.single(a).is_none() { need!(a); }
                        let a = if a.s == 0 { a } else { self.simp(st, a) };
                        let r = if a.s == 0 { V::c(un_c(*op, *w, *to, a.c)) } else { self.cx.un(*op, *w, *to, a) };
                        set!(*d, r);
                    }
                    Inst::Mov { d, a } => set!(*d, get!(*a)),
                    Inst::Select { w, d, c, a, b } => {
                        let cc = get!(*c);
                        let (x, y) = (get!(*a), get!(*b));
                        let r = if cc.s == 0 { if cc.c != 0 { x } else { y } } else {
                            let cc = self.simp(st, cc);
                            if cc.s == 0 { if cc.c != 0 { x } else { y } }
                            else if x == y { x }
                            else if self.cx.single(cc).is_some() { self.cx.ite(*w, cc, x, y) }
                            else {
                                let mut ch = None;
                                match tri!(self.branch(st, cc, &mut ch)) {
                                    Br::T => x,
                                    Br::F => y,
                                    Br::None => return End::Infeasible,
                                    Br::Both => {
                                        let mut s2 = ch.unwrap();
                                        s2.cur.regs[*d as usize] = y;
                                        s2.cur.pc = pc as u32 + 1;
                                        self.stack.push(s2);
                                        x
                                    }
                                }
                            }
                        };
                        set!(*d, r);
                    }
                    Inst::Gep { d, base, idx, scale, iw } => {
                        let (b, i) = (get!(*base), get!(*idx));
                        if b.s == 0 && i.s == 0 {
                            set!(*d, V::c(b.c.wrapping_add((sext(i.c, *iw) as u64).wrapping_mul(*scale))));
                        } else {
                            let i = if *iw < 64 { self.cx.un(Un::SExt, *iw, 64, i) } else { i };
                            let o = self.cx.bin(Bin::Mul, 64, i, V::c(*scale));
                            let r = self.cx.bin(Bin::Add, 64, b, o);
                            set!(*d, r);
                        }
                    }
                    Inst::Load { d, addr, off, bits } => {
                        let a = get!(*addr);
                        let v = if a.s == 0 { tri!(self.load_raw(st, a.c.wrapping_add(*off), *bits)) } else {
                            st.cur.pc = pc as u32;
                            match tri!(self.load_sym(st, a, *off, *bits)) { Some(v) => v, None => continue 'fun }
                        };
                        set!(*d, v);
                    }
                    Inst::Store { v, addr, off, bits } => {
                        let a = need!(get!(*addr));
                        let x = get!(*v);
                        // widths of symbolic values must match the store width
                        let x = if x.s != 0 { let w = self.cx.nodes[x.s as usize].w; if w == *bits { x } else if w > *bits { self.cx.un(Un::Trunc, w, *bits, x) } else { self.cx.un(Un::ZExt, w, *bits, x) } } else { x };
                        tri!(self.store_raw(st, a.wrapping_add(*off), *bits, x));
                    }
                    Inst::Alloca { d, size, align } => {
                        let al = (*align).max(16);
                        let a = (st.sp + al - 1) / al * al;
                        st.sp = a + (*size).max(1);
                        set!(*d, V::c(a));
                    }
                    Inst::Br { e } => {
                        let np = self.take(st, fun, *e);
                        if np <= pc && st.steps > budget { st.cur.pc = pc as u32; return End::Budget }
                        pc = np;
                        continue;
                    }
                    Inst::CondBr { c, t, f } => {
                        let c = get!(*c);
                        if c.s == 0 {
                            let np = self.take(st, fun, if c.c != 0 { *t } else { *f });
                            if np <= pc && st.steps > budget { st.cur.pc = pc as u32; return End::Budget }
                            pc = np;
                            continue;
                        }
                        let mut ch = None;
                        let e = match tri!(self.branch(st, c, &mut ch)) {
                            Br::T => *t,
                            Br::F => *f,
                            Br::None => return End::Infeasible,
                            Br::Both => {
                                let mut s2 = ch.unwrap();
                                let p2 = self.take(&mut s2, fun, *f);
                                s2.cur.pc = p2 as u32;
                                self.stack.push(s2);
                                *t
                            }
                        };
                        pc = self.take(st, fun, e);
                        continue;
                    }
                    Inst::Switch { v, w, def, cases } => {
                        let x = get!(*v);
                        let x = if x.s != 0 { self.simp(st, x) } else { x };
                        if x.s == 0 {
                            let e = *cases.get(&x.c).unwrap_or(def);
                            pc = self.take(st, fun, e);
                            continue;
                        }
                        if let Some((var, t)) = self.cx.single(x).map(|x| (x.0, x.1.clone())) {
                            self.out.fin_decisions += 1;
                            let d = st.doms[var as usize].clone();
                            // group by target block and phi inputs (edges are unique per target)
                            let mut groups: BTreeMap<u32, Bits> = BTreeMap::new();
                            for i in d.iter() { groups.entry(*cases.get(&t[i]).unwrap_or(def)).or_insert_with(|| d.empty_like()).set(i) }
                            let mut list: Vec<(u32, Bits)> = vec![];
                            for (e, b) in groups {
                                if st.touched >> var & 1 != 0 && !tri!(self.sat(st, &[], Some((var as usize, &b)))) { continue }
                                list.push((e, b));
                            }
                            if list.is_empty() { return End::Infeasible }
                            for (e, b) in list.drain(1..).rev() {
                                let mut s2 = st.clone();
                                s2.doms[var as usize] = Rc::new(b);
                                let p2 = self.take(&mut s2, fun, e);
                                s2.cur.pc = p2 as u32;
                                self.out.forks += 1;
                                self.stack.push(s2);
                            }
                            let (e, b) = list.pop().unwrap();
                            st.doms[var as usize] = Rc::new(b);
                            pc = self.take(st, fun, e);
                            continue;
                        }
                        let _ = w;
                        need!(x);
                        unreachable!()
                    }
                    Inst::Call { f, args, d } => {
                        let callee = &m.funcs[*f as usize];
                        if callee.special == SP_MERGE && !mini {
                            let av: Vec<V> = args.iter().map(|a| get!(*a)).collect();
                            st.cur.pc = pc as u32;
                            match tri!(self.merged(st, *f, &av)) {
                                None => continue 'fun,
                                Some(r) => { if *d != NOREG { for (i, v) in r.iter().enumerate() { let lw = 64; let _ = lw; set!(*d + i as u32, *v) } } }
                            }
                        } else if callee.special == SP_FMT && !mini && !self.real_fmt {
                            // alloc::fmt::format: result replaced by the empty string (stub, see DESIGN)
                            let dst = need!(get!(args[0]));
                            tri!(self.store_raw(st, dst, 64, V::c(0)));
                            tri!(self.store_raw(st, dst + 8, 64, V::c(1)));
                            tri!(self.store_raw(st, dst + 16, 64, V::c(0)));
                        } else {
                            st.cur.pc = pc as u32 + 1;
                            let av: smallargs::Args = args.iter().map(|a| get!(*a)).collect();
                            if st.steps > budget { return End::Budget }
                            if st.depth > 3000 { return End::Error("recursion too deep".into()) }
                            let old = std::mem::replace(&mut st.cur, Frame { func: 0, pc: 0, ret_d: 0, sp_save: 0, regs: vec![] });
                            st.frames.push(Rc::new(old));
                            self.enter(st, *f, &av, *d);
                            continue 'fun;
                        }
                    }
                    Inst::CallInd { p, args, d } => {
                        let a = need!(get!(*p));
                        let f = ((a - FN_BASE) / 16) as u32;
                        if a < FN_BASE || f as usize >= m.funcs.len() { return End::Error(format!("bad indirect call {:#x}", a)) }
                        st.cur.pc = pc as u32 + 1;
                        let av: smallargs::Args = args.iter().map(|a| get!(*a)).collect();
                        let old = std::mem::replace(&mut st.cur, Frame { func: 0, pc: 0, ret_d: 0, sp_save: 0, regs: vec![] });
                        st.frames.push(Rc::new(old));
                        self.enter(st, f, &av, *d);
                        continue 'fun;
                    }
                    Inst::Ret { vals } => {
                        let rv: smallargs::Args = vals.iter().map(|a| get!(*a)).collect();
                        if st.steps > budget { st.cur.pc = pc as u32; return End::Budget }
                        st.sp = st.cur.sp_save;
                        st.depth -= 1;
                        let d = st.cur.ret_d;
                        match st.frames.pop() {
                            None => { if let Some(r) = rets.take() { r.extend_from_slice(&rv) } return End::Ok }
                            Some(fr) => {
                                let fr = match Rc::try_unwrap(fr) { Ok(f) => f, Err(r) => (*r).clone() };
                                let old = std::mem::replace(&mut st.cur, fr);
                                if self.pool.len() < 64 { self.pool.push(old.regs) }
                                if d != NOREG { for (i, v) in rv.iter().enumerate() { st.cur.regs[d as usize + i] = *v } }
                                continue 'fun;
                            }
                        }
                    }
                    Inst::Unreachable => { st.cur.pc = pc as u32; return End::Panic(format!("unreachable executed [{}]", self.backtrace(st))) }
                    Inst::Big { op, d, a, b } => {
                        let x = need!(get!(a[0])) as u128 | (need!(get!(a[1])) as u128) << 64;
                        let y = need!(get!(b[0])) as u128 | (need!(get!(b[1])) as u128) << 64;
                        let r = match op {
                            BigOp::Mul => x.wrapping_mul(y), BigOp::Add => x.wrapping_add(y), BigOp::Sub => x.wrapping_sub(y), BigOp::And => x & y, BigOp::Or => x | y, BigOp::Xor => x ^ y,
                            BigOp::Shl => x.checked_shl(y as u32).unwrap_or(0), BigOp::LShr => x.checked_shr(y as u32).unwrap_or(0),
                            BigOp::UDiv => x / y, BigOp::URem => x % y,
                            BigOp::Eq => (x == y) as u128, BigOp::Ne => (x != y) as u128, BigOp::Ult => (x < y) as u128,
                        };
                        set!(*d, V::c(r as u64));
                        if !matches!(op, BigOp::Eq | BigOp::Ne | BigOp::Ult) { set!(*d + 1, V::c((r >> 64) as u64)) }
                    }
                    Inst::Fshl { w, d, a, b, c, right } => {
                        let (a, b, c) = (need!(get!(*a)), need!(get!(*b)), need!(get!(*c)));
                        let s = c % *w as u64;
                        let wide = (a as u128) << *w | b as u128;
                        let r = if *right { wide >> s } else { (wide << s) >> *w };
                        set!(*d, V::c(mask(r as u64, *w)));
                    }
                    Inst::Intr { f, args, d } => {
                        match f {
                            Intr::Memcpy => {
                                let (x, y, n) = (need!(get!(args[0])), get!(args[1]), need!(get!(args[2])));
                                if n > 0 { let y = need!(y); tri!(self.copy(st, x, y, n)); }
                                if *d != NOREG { set!(*d, V::c(x)) }
                            }
                            Intr::Memset => {
                                let (x, v, n) = (need!(get!(args[0])), get!(args[1]), need!(get!(args[2])));
                                let v = if v.s == 0 { V::c(v.c & 255) } else { v };
                                tri!(self.set(st, x, v, n));
                                if *d != NOREG { set!(*d, V::c(x)) }
                            }
                            Intr::Memcmp => {
                                let n = need!(get!(args[2]));
                                if n == 0 { set!(*d, V::c(0)) } else {
                                let (x, y) = (get!(args[0]), get!(args[1]));
                                st.cur.pc = pc as u32;
                                match tri!(self.memcmp(st, x, y, n)) { Some(v) => set!(*d, v), None => continue 'fun }
                                }
                            }
                            Intr::Trap => { st.cur.pc = pc as u32; return End::Panic(format!("abort [{}]", self.backtrace(st))) }
                            Intr::VPanic => { st.cur.pc = pc as u32; return End::Panic(self.backtrace(st)) }
                            Intr::VAlloc => {
                                let (n, al) = (need!(get!(args[0])), need!(get!(args[1])).max(16));
                                let a = (st.hp + al - 1) / al * al;
                                st.hp = a + n.max(1);
                                if st.hp - HEAP_BASE > 1 << 26 { st.cur.pc = pc as u32; return End::Budget }
                                set!(*d, V::c(a));
                            }
                            Intr::VInput => {
                                let p = need!(get!(args[0]));
                                let inp = std::mem::take(&mut self.input);
                                for (i, b) in inp.iter().enumerate() {
                                    let v = match b { InByte::C(c) => V::c(*c as u64), InByte::V(v) => *v };
                                    let r = self.store_raw(st, p + i as u64, 8, v);
                                    if r.is_err() { self.input = inp; return End::Error("input buffer too small".into()) }
                                }
                                set!(*d, V::c(inp.len() as u64));
                                self.input = inp;
                            }
                            Intr::VParam => {
                                let i = need!(get!(args[0]));
                                let v = self.params.get(i as usize).copied().unwrap_or(V::c(0));
                                set!(*d, v);
                            }
                            Intr::VFail => {
                                let c = need!(get!(args[0]));
                                let (a, b) = (get!(args[1]), get!(args[2]));
                                let _ = b;
                                if st.reports.len() < 64 { st.reports.push((c, a)) }
                            }
                            Intr::VTrace => { let v = get!(args[0]); st.trace.push(v); }
                            Intr::VCover => { let v = need!(get!(args[0])); st.covers |= 1 << (v & 63); }
                            Intr::VNote => { let v = get!(args[0]); if std::env::var("SYMEX_NOTE").is_ok() { eprintln!("note {:?}", v) } }
                            Intr::VAssume => {
                                let v = get!(args[0]);
                                let v = if v.s != 0 { self.cx.bin(Bin::Ne, self.cx.nodes[v.s as usize].w, v, V::c(0)) } else { v };
                                // what is assumed away is accounted for when coverage is proved
                                let mut s2 = st.clone();
                                if tri!(self.assume(&mut s2, v, false)) { self.pathsets.push((s2.doms.clone(), s2.pc.clone())) }
                                if !tri!(self.assume(st, v, true)) { return End::Infeasible }
                            }
                        }
                    }
                }
                pc += 1;
            }
        }
    }
    #[inline]
    fn take(&mut self, st: &mut State, fun: &Func, e: u32) -> usize {
        let e = &fun.edges[e as usize];
        let mv = &e.moves;
        let consts = &fun.consts;
        let regs = &mut st.cur.regs;
        macro_rules! g { ($o:expr) => {{ let o = $o; if o & CONST != 0 { V::c(consts[(o & !CONST) as usize]) } else { regs[o as usize] } }} }
        match mv.len() {
            0 => {}
            1 => { let v = g!(mv[0].1); regs[mv[0].0 as usize] = v; }
            n if n <= 16 => {
                let mut t = [V::c(0); 16];
                for i in 0..n { t[i] = g!(mv[i].1) }
                for i in 0..n { regs[mv[i].0 as usize] = t[i] }
            }
            n => {
                let t: Vec<V> = (0..n).map(|i| g!(mv[i].1)).collect();
                for i in 0..n { regs[mv[i].0 as usize] = t[i] }
            }
        }
        let b = (fun.block_base + e.block) as usize;
        self.cov[b / 64] |= 1 << (b % 64);
        e.target as usize
    }
    fn load_sym(&mut self, st: &mut State, a: V, off: u64, bits: u32) -> Result<Option<V>, String> {
        let a = self.simp(st, a);
        if a.s == 0 { return Ok(Some(self.load_raw(st, a.c.wrapping_add(off), bits)?)); }
        if let Some((x, t)) = self.cx.single(a).map(|x| (x.0, x.1.clone())) {
            let d = st.doms[x as usize].clone();
            let mut vals = vec![0u64; t.len()];
            let mut memo: HashMap<u64, u64> = HashMap::new();
            let mut ok = true;
            for i in d.iter() {
                let ad = t[i].wrapping_add(off);
                let v = match memo.get(&ad) { Some(v) => *v, None => {
                    let v = self.load_raw(st, ad, bits)?;
                    let v = if v.s != 0 { match self.cx.single(v) { Some((y, u)) if y == x => V::c(u[i]), _ => v } } else { v };
                    if v.s != 0 { ok = false; break }
                    // per-index values of the same address may differ when the content depends on x
                    if self.load_raw(st, ad, bits)?.s == 0 { memo.insert(ad, v.c); }
                    v.c
                } };
                vals[i] = v;
            }
            if ok {
                // outside the current domain the value is irrelevant: use an in-domain value
                let f = vals[d.first()];
                for i in 0..vals.len() { if !d.get(i) { vals[i] = f } }
                return Ok(Some(self.cx.tbl(x, bits, vals)));
            }
        }
        match self.need(st, a)? { Some(c) => Ok(Some(self.load_raw(st, c.wrapping_add(off), bits)?)), None => Ok(None) }
    }
    fn memcmp(&mut self, st: &mut State, x: V, y: V, n: u64) -> Result<Option<V>, String> {
        let (x, y) = match (self.simp(st, x), self.simp(st, y)) {
            (x, y) if x.s == 0 && y.s == 0 => (x.c, y.c),
            (x, y) => {
                // one symbolic address over one variable, other concrete with concrete bytes: build a table
                for (p, q) in [(x, y), (y, x)] {
                    if q.s == 0 {
                        if let Some((v, t)) = self.cx.single(p).map(|x| (x.0, x.1.clone())) {
                            let mut qb = vec![];
                            for i in 0..n { let b = self.load_raw(st, q.c + i, 8)?; if b.s != 0 { break } qb.push(b.c) }
                            if qb.len() as u64 != n { continue }
                            let d = st.doms[v as usize].clone();
                            let mut vals = vec![0u64; t.len()];
                            let mut ok = true;
                            'o: for i in d.iter() {
                                let mut r = 0i64;
                                for k in 0..n {
                                    let b = self.load_raw(st, t[i] + k, 8)?;
                                    if b.s != 0 { ok = false; break 'o }
                                    if b.c != qb[k as usize] { r = if b.c < qb[k as usize] { -1 } else { 1 }; break }
                                }
                                if p == y { r = -r }
                                vals[i] = r as u32 as u64;
                            }
                            if ok {
                                let f = vals[d.first()];
                                for i in 0..vals.len() { if !d.get(i) { vals[i] = f } }
                                return Ok(Some(self.cx.tbl(v, 32, vals)));
                            }
                        }
                    }
                }
                if self.need(st, x)?.is_none() { return Ok(None); }
                if self.need(st, y)?.is_none() { return Ok(None); }
                return Ok(None);
            }
        };
        // bytewise
        let mut conj: Vec<V> = vec![];
        let mut bytes = vec![];
        let mut all_c = true;
        for i in 0..n {
            let (a, b) = (self.load_raw(st, x + i, 8)?, self.load_raw(st, y + i, 8)?);
            let (a, b) = (self.simp(st, a), self.simp(st, b));
            if a.s != 0 || b.s != 0 { all_c = false }
            else if a.c != b.c && all_c { return Ok(Some(V::c(if a.c < b.c { u32::MAX as u64 } else { 1 }))); }
            bytes.push((a, b));
        }
        if all_c { return Ok(Some(V::c(0))); }
        for (a, b) in &bytes { let v = self.cx.bin(Bin::Eq, 8, *a, *b); conj.push(v) }
        let eq = self.cx.and(&conj);
        let eq = self.simp(st, eq);
        if eq.s == 0 && eq.c == 1 { return Ok(Some(V::c(0))); }
        // ordering: ite chain from the last byte
        if eq.s == 0 || self.cx.single(eq).is_some() || n <= 16 {
            let mut s2 = None;
            match self.branch(st, eq, &mut s2)? {
                Br::T => return Ok(Some(V::c(0))),
                Br::Both => { self.stack.push(s2.unwrap()); return Ok(None) } // re-executed in both
                Br::None => return Err("INFEASIBLE".into()),
                Br::F => {}
            }
            // not equal: find first differing byte by forking on each byte equality
            for (k, (a, b)) in bytes.iter().enumerate() {
                let e = conj[k];
                let mut s2 = None;
                match self.branch(st, e, &mut s2)? {
                    Br::T => continue,
                    Br::Both => { self.stack.push(s2.unwrap()); return Ok(None) }
                    Br::None => return Err("INFEASIBLE".into()),
                    Br::F => {
                        let lt = self.cx.bin(Bin::Ult, 8, *a, *b);
                        let mut s2 = None;
                        match self.branch(st, lt, &mut s2)? {
                            Br::T => return Ok(Some(V::c(u32::MAX as u64))),
                            Br::F => return Ok(Some(V::c(1))),
                            Br::Both => { self.stack.push(s2.unwrap()); return Ok(None) }
                            Br::None => return Err("INFEASIBLE".into()),
                        }
                    }
                }
            }
            return Ok(Some(V::c(0)));
        }
        Err("memcmp of long symbolic strings".into())
    }

    /// Run one job from `entry` to completion of all its paths.
    pub fn run_job(&mut self, entry: u32, lim: &Limits) {
        let mut st = self.fresh_state();
        self.enter(&mut st, entry, &[], NOREG);
        self.stack.push(st);
        while let Some(mut st) = self.stack.pop() {
            if self.out.paths >= lim.max_paths { self.out.incomplete = Some(format!("path limit {}", lim.max_paths)); self.stack.clear(); break }
            if Instant::now() > lim.deadline { self.out.incomplete = Some("time limit".into()); self.stack.clear(); break }
            let s0 = st.steps;
            let e = self.run_state(&mut st, None, lim.path_steps, false);
            self.out.steps += st.steps - s0;
            if matches!(e, End::Infeasible) { continue }
            self.out.paths += 1;
            self.out.max_path_steps = self.out.max_path_steps.max(st.steps);
            if !matches!(e, End::Infeasible) && !st.reports.is_empty() {
                let reps = std::mem::take(&mut st.reports);
                let need = reps.iter().any(|(c, a)| a.s != 0 || !self.out.viol.contains_key(&("fail".to_string(), *c, a.c)));
                if need {
                    match self.pick(&mut st) {
                        Ok(Some(model)) => {
                            let tr: Vec<u64> = st.trace.iter().map(|v| self.cx.evalv(*v, &model)).collect();
                            for (c, a) in &reps {
                                let detail = self.cx.evalv(*a, &model);
                                self.out.viol.entry(("fail".to_string(), *c, detail)).and_modify(|v| v.count += 1).or_insert_with(|| Violation { kind: "fail".into(), code: *c, detail, model: model.clone(), stack: String::new(), count: 1, trace: tr.clone() });
                            }
                        }
                        Ok(None) => {}
                        Err(e) => self.out.errors.push(e),
                    }
                } else { for (c, a) in &reps { if let Some(v) = self.out.viol.get_mut(&("fail".to_string(), *c, a.c)) { v.count += 1 } } }
            }
            let fail: Option<(String, u64, u64, String)> = match &e {
                End::Ok => None,
                End::Infeasible => None,
                End::Panic(s) => Some(("panic".into(), 0, 0, s.clone())),
                End::Budget => Some(("budget".into(), 0, 0, self.backtrace(&st))),
                End::Error(s) => { if self.out.errors.len() < 5 { self.out.errors.push(s.clone()) } None }
            };
            if let Some((kind, code, detail, stack)) = fail {
                let key = (kind.clone(), code, if kind == "fail" { detail } else { hash(&stack.split(" < ").take(6).collect::<Vec<_>>().join("|")) });
                if let Some(v) = self.out.viol.get_mut(&key) { v.count += 1 } else {
                    match self.pick(&mut st) {
                        Ok(Some(model)) => {
                            let tr = st.trace.iter().map(|v| self.cx.evalv(*v, &model)).collect();
                            self.out.viol.insert(key, Violation { kind, code, detail, model, stack, count: 1, trace: tr });
                        }
                        Ok(None) => {}
                        Err(e) => self.out.errors.push(e),
                    }
                }
                self.pathsets.push((st.doms.clone(), st.pc.clone()));
            } else if matches!(e, End::Ok) {
                self.out.covers |= st.covers;
                // sample paths for native validation: the first ones and then sparsely
                let k = self.out.paths;
                if self.out.samples.len() < lim.samples && (k <= (lim.samples as u64 + 1) / 2 || k % 37 == 5) {
                    if let Ok(Some(m)) = self.pick(&mut st) {
                        let tr = st.trace.iter().map(|v| self.cx.evalv(*v, &m)).collect();
                        self.out.samples.push((m, tr));
                    }
                }
                self.pathsets.push((st.doms.clone(), st.pc.clone()));
            }
            if self.pool.len() < 64 { self.pool.push(std::mem::take(&mut st.cur.regs)) }
        }
        if self.out.incomplete.is_none() && self.out.errors.is_empty() {
            match self.prove_coverage() {
                Ok(true) => self.out.coverage_proved = true,
                Ok(false) => self.out.errors.push("SMT: some input is on no explored path (engine error)".into()),
                Err(e) => self.out.errors.push(format!("SMT coverage query: {}", e)),
            }
        }
        if let Some(z) = &self.z3 { self.out.z3_queries = z.queries; self.out.z3_time = z.time; self.out.z3_sat = z.sat; self.out.z3_unsat = z.unsat; }
    }
    /// SMT query: is there an input within the bounds that satisfies no explored path condition?
    fn prove_coverage(&mut self) -> Result<bool, String> {
        if self.cx.var_n.is_empty() { return Ok(self.pathsets.len() == 1); }
        let ps = std::mem::take(&mut self.pathsets);
        let cx = std::mem::replace(&mut self.cx, Ctx::new());
        let full: Vec<Bits> = cx.var_n.iter().map(|n| Bits::full(*n)).collect();
        let mut nodes = vec![];
        let mut sets: HashMap<(usize, Bits), usize> = HashMap::new();
        let mut defs = String::new();
        let mut f = String::from("(and");
        for (v, d) in full.iter().enumerate() { f.push(' '); f.push_str(&Z3::dom_text(&cx, v, d)); }
        for (doms, pc) in &ps {
            f.push_str("\n(not (and true");
            for (v, d) in doms.iter().enumerate() {
                if **d == full[v] { continue }
                let k = sets.len();
                let id = *sets.entry((v, (**d).clone())).or_insert_with(|| { defs.push_str(&format!("(define-fun s{} () Bool {})\n", k, Z3::dom_text(&cx, v, d))); k });
                f.push_str(&format!(" s{}", id));
            }
            for p in pc { nodes.push(*p); f.push_str(&format!(" (= n{} (_ bv1 1))", p)); }
            f.push_str("))");
        }
        f.push(')');
        let z = self.z3();
        z.predef(&cx, &defs);
        let r = z.all_unsat(&cx, &[f], &nodes);
        self.cx = cx;
        r
    }
    /// Table-evaluation cross-check: ask the solver whether the value tables computed by the
    /// engine agree with the SMT-LIB semantics of the operations they came from.
    pub fn check_terms(&mut self, max: usize) {
        let cx = std::mem::replace(&mut self.cx, Ctx::new());
        let obl = cx.term_obligations(max);
        if !obl.0.is_empty() {
            self.out.term_obl = obl.1;
            let z = self.z3();
            match z.all_unsat(&cx, &obl.0, &[]) {
                Ok(true) => {}
                Ok(false) => self.out.errors.push("SMT: a value table disagrees with the bit-vector semantics".into()),
                Err(e) => self.out.errors.push(format!("SMT term query: {}", e)),
            }
        }
        self.cx = cx;
        if let Some(z) = &self.z3 { self.out.z3_queries = z.queries; self.out.z3_time = z.time; self.out.z3_sat = z.sat; self.out.z3_unsat = z.unsat; }
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
    h >> 1
}

pub mod smallargs {
    pub type Args = Vec<crate::expr::V>;
}
