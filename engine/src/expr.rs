//! Symbolic terms.  Every symbolic input is a variable over a small finite domain
//! (a byte class, a token slot, an option); a term over one variable is kept as its
//! complete value table, a term over several variables as an operator node.
use crate::ll::{mask, sext, Bin, Un};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct V {
    pub c: u64,
    pub s: u32,
}
impl V {
    #[inline(always)]
    pub fn c(c: u64) -> V {
        V { c, s: 0 }
    }
    #[inline(always)]
    pub fn s(s: u32) -> V {
        V { c: 0, s }
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Kind {
    Const(u64),
    Tbl(u32, Rc<[u64]>),
    Bin(Bin, u32, u32, u32), // op, operand width
    Un(Un, u32, u32),        // op, from width
    Ite(u32, u32, u32),
    /// little-endian bytes (8-bit nodes)
    Concat(Rc<[u32]>),
    And(Rc<[u32]>),
    Not(u32),
}

pub struct Node {
    pub k: Kind,
    pub w: u32,
    pub deps: u64,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<(Kind, u32), u32>,
    bcache: HashMap<(Bin, u32, V, V), V>,
    ucache: HashMap<(Un, u32, u32, u32), V>,
    pub var_n: Vec<usize>,
    pub var_name: Vec<String>,
}

pub fn bin_c(op: Bin, w: u32, a: u64, b: u64) -> u64 {
    let f = |x: u64| if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
    let g = |x: f64| if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() };
    match op {
        Bin::Add => mask(a.wrapping_add(b), w),
        Bin::Sub => mask(a.wrapping_sub(b), w),
        Bin::Mul => mask(a.wrapping_mul(b), w),
        Bin::UDiv => if b == 0 { 0 } else { a / b },
        Bin::URem => if b == 0 { 0 } else { a % b },
        Bin::SDiv => if b == 0 { 0 } else { mask(sext(a, w).wrapping_div(sext(b, w)) as u64, w) },
        Bin::SRem => if b == 0 { 0 } else { mask(sext(a, w).wrapping_rem(sext(b, w)) as u64, w) },
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => if b >= w as u64 { 0 } else { mask(a << b, w) },
        Bin::LShr => if b >= w as u64 { 0 } else { a >> b },
        Bin::AShr => mask((sext(a, w) >> b.min(63)) as u64, w),
        Bin::UMin => a.min(b),
        Bin::UMax => a.max(b),
        Bin::SMin => if sext(a, w) < sext(b, w) { a } else { b },
        Bin::SMax => if sext(a, w) > sext(b, w) { a } else { b },
        Bin::UAddSat => { let r = a as u128 + b as u128; let m = mask(u64::MAX, w); if r > m as u128 { m } else { r as u64 } }
        Bin::USubSat => a.saturating_sub(b),
        Bin::FAdd => g(f(a) + f(b)),
        Bin::FSub => g(f(a) - f(b)),
        Bin::FMul => g(f(a) * f(b)),
        Bin::FDiv => g(f(a) / f(b)),
        Bin::Eq => (a == b) as u64,
        Bin::Ne => (a != b) as u64,
        Bin::Ult => (a < b) as u64,
        Bin::Ule => (a <= b) as u64,
        Bin::Ugt => (a > b) as u64,
        Bin::Uge => (a >= b) as u64,
        Bin::Slt => (sext(a, w) < sext(b, w)) as u64,
        Bin::Sle => (sext(a, w) <= sext(b, w)) as u64,
        Bin::Sgt => (sext(a, w) > sext(b, w)) as u64,
        Bin::Sge => (sext(a, w) >= sext(b, w)) as u64,
        Bin::FOeq => (f(a) == f(b)) as u64,
        Bin::FOne => (f(a) < f(b) || f(a) > f(b)) as u64,
        Bin::FOlt => (f(a) < f(b)) as u64,
        Bin::FOle => (f(a) <= f(b)) as u64,
        Bin::FOgt => (f(a) > f(b)) as u64,
        Bin::FOge => (f(a) >= f(b)) as u64,
        Bin::FUne => (f(a) != f(b)) as u64,
        Bin::FUeq => (!(f(a) < f(b) || f(a) > f(b))) as u64,
        Bin::UAddO => (a as u128 + b as u128 > mask(u64::MAX, w) as u128) as u64,
        Bin::USubO => (a < b) as u64,
        Bin::UMulO => (a as u128 * b as u128 > mask(u64::MAX, w) as u128) as u64,
        Bin::SAddO | Bin::SSubO | Bin::SMulO => {
            let (x, y) = (sext(a, w) as i128, sext(b, w) as i128);
            let r = match op { Bin::SAddO => x + y, Bin::SSubO => x - y, _ => x * y };
            let lim = 1i128 << (w - 1);
            (r < -lim || r >= lim) as u64
        }
    }
}
pub fn bin_smt(op: Bin) -> bool {
    use Bin::*;
    !matches!(op, FAdd | FSub | FMul | FDiv | FOeq | FOne | FOlt | FOle | FOgt | FOge | FUne | FUeq | SAddO | SSubO | SMulO)
}
pub fn bin_w(op: Bin, w: u32) -> u32 {
    use Bin::*;
    match op {
        Eq | Ne | Ult | Ule | Ugt | Uge | Slt | Sle | Sgt | Sge | FOeq | FOne | FOlt | FOle | FOgt | FOge | FUne | FUeq | UAddO | USubO | UMulO | SAddO | SSubO | SMulO => 1,
        _ => w,
    }
}
pub fn un_c(op: Un, w: u32, to: u32, a: u64) -> u64 {
    match op {
        Un::ZExt => a,
        Un::SExt => mask(sext(a, w) as u64, to),
        Un::Trunc => mask(a, to),
        Un::Ctpop => a.count_ones() as u64,
        Un::Ctlz => (a.leading_zeros() as u64) - (64 - w as u64),
        Un::Cttz => (a.trailing_zeros() as u64).min(w as u64),
        Un::BSwap => a.swap_bytes() >> (64 - w),
        Un::BitRev => a.reverse_bits() >> (64 - w),
        Un::FNeg => if w == 32 { a ^ 0x8000_0000 } else { a ^ (1 << 63) },
        Un::UiToFp => if to == 32 { (a as f32).to_bits() as u64 } else { (a as f64).to_bits() },
        Un::SiToFp => if to == 32 { (sext(a, w) as f32).to_bits() as u64 } else { (sext(a, w) as f64).to_bits() },
        Un::Abs => mask(sext(a, w).wrapping_abs() as u64, w),
        Un::FpToUiSat => { let f = if w == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a) }; let m = mask(u64::MAX, to); if f.is_nan() || f <= 0.0 { 0 } else if f >= m as f64 { m } else { f as u64 } }
        Un::FpToSiSat => panic!("fptosi"),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: vec![Node { k: Kind::Const(0), w: 0, deps: 0 }],
            map: HashMap::new(),
            bcache: HashMap::new(),
            ucache: HashMap::new(),
            var_n: vec![],
            var_name: vec![],
        }
    }
    pub fn new_var(&mut self, name: &str, n: usize) -> u32 {
        assert!(self.var_n.len() < 64);
        self.var_n.push(n);
        self.var_name.push(name.to_string());
        self.var_n.len() as u32 - 1
    }
    pub fn mk(&mut self, k: Kind, w: u32) -> u32 {
        let key = (k, w);
        if let Some(i) = self.map.get(&key) {
            return *i;
        }
        let deps = match &key.0 {
            Kind::Const(_) => 0,
            Kind::Tbl(v, _) => 1 << v,
            Kind::Bin(_, _, a, b) => self.nodes[*a as usize].deps | self.nodes[*b as usize].deps,
            Kind::Un(_, _, a) | Kind::Not(a) => self.nodes[*a as usize].deps,
            Kind::Ite(c, a, b) => self.nodes[*a as usize].deps | self.nodes[*b as usize].deps | self.nodes[*c as usize].deps,
            Kind::Concat(v) | Kind::And(v) => v.iter().fold(0, |x, y| x | self.nodes[*y as usize].deps),
        };
        self.nodes.push(Node { k: key.0.clone(), w, deps });
        let id = self.nodes.len() as u32 - 1;
        self.map.insert(key, id);
        id
    }
    pub fn tbl(&mut self, var: u32, w: u32, vals: Vec<u64>) -> V {
        if vals.iter().all(|x| *x == vals[0]) {
            return V::c(vals[0]);
        }
        V::s(self.mk(Kind::Tbl(var, vals.into()), w))
    }
    pub fn single(&self, v: V) -> Option<(u32, &Rc<[u64]>)> {
        if v.s == 0 {
            return None;
        }
        match &self.nodes[v.s as usize].k {
            Kind::Tbl(x, t) => Some((*x, t)),
            _ => None,
        }
    }
    pub fn node(&mut self, v: V, w: u32) -> u32 {
        if v.s != 0 { v.s } else { self.mk(Kind::Const(v.c), w) }
    }
    fn un_node(&self, id: u32) -> V {
        match &self.nodes[id as usize].k { Kind::Const(c) => V::c(*c), _ => V::s(id) }
    }
    pub fn bin(&mut self, op: Bin, w: u32, a: V, b: V) -> V {
        if a.s == 0 && b.s == 0 {
            return V::c(bin_c(op, w, a.c, b.c));
        }
        let key = (op, w, a, b);
        if let Some(v) = self.bcache.get(&key) {
            return *v;
        }
        let r = self.bin_slow(op, w, a, b);
        self.bcache.insert(key, r);
        r
    }
    fn bin_slow(&mut self, op: Bin, w: u32, a: V, b: V) -> V {
        let ow = bin_w(op, w);
        let (sa, sb) = (self.single(a).map(|x| (x.0, x.1.clone())), self.single(b).map(|x| (x.0, x.1.clone())));
        match (&sa, &sb) {
            (Some((x, ta)), None) if b.s == 0 => return self.tbl(*x, ow, ta.iter().map(|p| bin_c(op, w, *p, b.c)).collect()),
            (None, Some((x, tb))) if a.s == 0 => return self.tbl(*x, ow, tb.iter().map(|p| bin_c(op, w, a.c, *p)).collect()),
            (Some((x, ta)), Some((y, tb))) if x == y => return self.tbl(*x, ow, ta.iter().zip(tb.iter()).map(|(p, q)| bin_c(op, w, *p, *q)).collect()),
            _ => {}
        }
        // boolean structure
        if w == 1 {
            match op {
                Bin::And => {
                    if a.s == 0 { return if a.c == 0 { V::c(0) } else { b }; }
                    if b.s == 0 { return if b.c == 0 { V::c(0) } else { a }; }
                    return self.and(&[a, b]);
                }
                Bin::Or => {
                    let x = self.not(a);
                    let y = self.not(b);
                    let r = self.and(&[x, y]);
                    return self.not(r);
                }
                Bin::Xor if b.s == 0 => return if b.c == 1 { self.not(a) } else { a },
                Bin::Eq if b.s == 0 => return if b.c == 1 { a } else { self.not(a) },
                Bin::Ne if b.s == 0 => return if b.c == 0 { a } else { self.not(a) },
                _ => {}
            }
        }
        // bytewise structure
        if w % 8 == 0 && w > 8 {
            let (ba, bb) = (self.bytes(a, w), self.bytes(b, w));
            if let (Some(ba), Some(bb)) = (ba, bb) {
                match op {
                    Bin::And | Bin::Or | Bin::Xor => {
                        let mut ok = true;
                        let mut out = vec![];
                        for i in 0..ba.len() {
                            let v = self.bin(op, 8, ba[i], bb[i]);
                            if v.s != 0 && self.single(v).is_none() { ok = false }
                            out.push(v);
                        }
                        if ok { return self.concat(&out); }
                    }
                    Bin::Eq | Bin::Ne => {
                        let mut out = vec![];
                        for i in 0..ba.len() { let v = self.bin(Bin::Eq, 8, ba[i], bb[i]); out.push(v); }
                        let r = self.and(&out);
                        return if op == Bin::Eq { r } else { self.not(r) };
                    }
                    _ => {}
                }
            }
        }
        if let (Bin::Shl | Bin::LShr, 0) = (op, b.s) {
            if b.c % 8 == 0 && w % 8 == 0 {
                if let Some(ba) = self.bytes(a, w) {
                    let k = (b.c / 8) as usize;
                    let n = ba.len();
                    let out: Vec<V> = (0..n).map(|i| if op == Bin::LShr { if i + k < n { ba[i + k] } else { V::c(0) } } else if i >= k { ba[i - k] } else { V::c(0) }).collect();
                    return self.concat(&out);
                }
            }
        }
        let x = self.node(a, w);
        let y = self.node(b, w);
        V::s(self.mk(Kind::Bin(op, w, x, y), ow))
    }
    /// byte decomposition when it is available without a general extract
    fn bytes(&mut self, a: V, w: u32) -> Option<Vec<V>> {
        let n = (w / 8) as usize;
        if a.s == 0 {
            return Some((0..n).map(|i| V::c((a.c >> (8 * i)) & 255)).collect());
        }
        match self.nodes[a.s as usize].k.clone() {
            Kind::Concat(v) => Some(v.iter().map(|x| self.un_node(*x)).collect()),
            Kind::Tbl(x, t) => Some((0..n).map(|i| self.tbl(x, 8, t.iter().map(|p| (p >> (8 * i)) & 255).collect())).collect()),
            Kind::Un(Un::ZExt, f, x) if f % 8 == 0 => {
                let mut r = self.bytes(V::s(x), f)?;
                r.resize(n, V::c(0));
                Some(r)
            }
            _ => None,
        }
    }
    pub fn concat(&mut self, b: &[V]) -> V {
        if b.iter().all(|x| x.s == 0) {
            return V::c(b.iter().enumerate().fold(0, |a, (i, x)| a | x.c << (8 * i)));
        }
        // all over one variable?
        let mut var = None;
        let mut ok = true;
        for x in b {
            if x.s != 0 {
                match self.single(*x) {
                    Some((v, _)) => { if *var.get_or_insert(v) != v { ok = false } }
                    None => ok = false,
                }
            }
        }
        let w = 8 * b.len() as u32;
        if ok {
            let var = var.unwrap();
            let n = self.var_n[var as usize];
            let mut vals = vec![0u64; n];
            for (i, x) in b.iter().enumerate() {
                match self.single(*x) {
                    Some((_, t)) => for k in 0..n { vals[k] |= t[k] << (8 * i) },
                    None => for k in 0..n { vals[k] |= x.c << (8 * i) },
                }
            }
            return self.tbl(var, w, vals);
        }
        let ids: Vec<u32> = b.iter().map(|x| self.node(*x, 8)).collect();
        V::s(self.mk(Kind::Concat(ids.into()), w))
    }
    pub fn not(&mut self, a: V) -> V {
        if a.s == 0 { return V::c(1 - a.c); }
        match &self.nodes[a.s as usize].k {
            Kind::Tbl(x, t) => { let (x, t) = (*x, t.clone()); self.tbl(x, 1, t.iter().map(|p| 1 - p).collect()) }
            Kind::Not(x) => V::s(*x),
            _ => V::s(self.mk(Kind::Not(a.s), 1)),
        }
    }
    pub fn and(&mut self, l: &[V]) -> V {
        let mut flat: Vec<u32> = vec![];
        let mut tb: HashMap<u32, V> = HashMap::new();
        let mut st: Vec<V> = l.to_vec();
        while let Some(v) = st.pop() {
            if v.s == 0 { if v.c == 0 { return V::c(0); } continue; }
            match self.nodes[v.s as usize].k.clone() {
                Kind::And(k) => for x in k.iter() { st.push(V::s(*x)) },
                Kind::Tbl(x, t) => {
                    let nv = match tb.get(&x) {
                        Some(o) => { let o = self.single(*o).unwrap().1.clone(); self.tbl(x, 1, t.iter().zip(o.iter()).map(|(a, b)| a & b).collect()) }
                        None => v,
                    };
                    if nv.s == 0 { if nv.c == 0 { return V::c(0); } tb.remove(&x); } else { tb.insert(x, nv); }
                }
                _ => flat.push(v.s),
            }
        }
        let mut all: Vec<u32> = tb.values().map(|v| v.s).collect();
        all.extend(flat);
        all.sort();
        all.dedup();
        match all.len() {
            0 => V::c(1),
            1 => V::s(all[0]),
            _ => V::s(self.mk(Kind::And(all.into()), 1)),
        }
    }
    pub fn un(&mut self, op: Un, w: u32, to: u32, a: V) -> V {
        if a.s == 0 { return V::c(un_c(op, w, to, a.c)); }
        let key = (op, w, to, a.s);
        if let Some(v) = self.ucache.get(&key) { return *v; }
        let r = self.un_slow(op, w, to, a);
        self.ucache.insert(key, r);
        r
    }
    fn un_slow(&mut self, op: Un, w: u32, to: u32, a: V) -> V {
        if let Some((x, t)) = self.single(a).map(|x| (x.0, x.1.clone())) {
            return self.tbl(x, to, t.iter().map(|p| un_c(op, w, to, *p)).collect());
        }
        if op == Un::Trunc && to % 8 == 0 && w % 8 == 0 {
            if let Some(b) = self.bytes(a, w) { return self.concat(&b[..(to / 8) as usize]); }
        }
        if op == Un::ZExt && to % 8 == 0 && w % 8 == 0 {
            if let Some(mut b) = self.bytes(a, w) { b.resize((to / 8) as usize, V::c(0)); return self.concat(&b); }
        }
        V::s(self.mk(Kind::Un(op, w, a.s), to))
    }
    pub fn ite(&mut self, w: u32, c: V, a: V, b: V) -> V {
        if a == b { return a; }
        if c.s == 0 { return if c.c != 0 { a } else { b }; }
        if w == 1 {
            let nc = self.not(c);
            let x = self.bin(Bin::And, 1, c, a);
            let y = self.bin(Bin::And, 1, nc, b);
            return self.bin(Bin::Or, 1, x, y);
        }
        if let Some((x, t)) = self.single(c).map(|x| (x.0, x.1.clone())) {
            let f = |s: &Self, v: V| -> Option<Option<Rc<[u64]>>> { if v.s == 0 { Some(None) } else { match s.single(v) { Some((y, t)) if y == x => Some(Some(t.clone())), _ => None } } };
            if let (Some(ta), Some(tb)) = (f(self, a), f(self, b)) {
                let n = t.len();
                let vals = (0..n).map(|i| if t[i] != 0 { ta.as_ref().map(|t| t[i]).unwrap_or(a.c) } else { tb.as_ref().map(|t| t[i]).unwrap_or(b.c) }).collect();
                return self.tbl(x, w, vals);
            }
        }
        let (x, y) = (self.node(a, w), self.node(b, w));
        V::s(self.mk(Kind::Ite(c.s, x, y), w))
    }
    /// byte `off` of the value
    pub fn byte(&mut self, id: u32, off: u32) -> V {
        let w = self.nodes[id as usize].w;
        if w <= 8 { return V::s(id); }
        let wb = (w + 7) / 8 * 8;
        if w % 8 == 0 {
            if let Some(b) = self.bytes(V::s(id), w) { return b[off as usize]; }
        }
        let sh = self.bin(Bin::LShr, w, V::s(id), V::c(8 * off as u64));
        let tw = 8.min(wb - 8 * off);
        self.un(Un::Trunc, w, tw, sh)
    }
    /// Negated obligations "table entry != operation applied to the operands' entries", as ground
    /// formulas, for at most `max` different operations of this job.
    pub fn term_obligations(&self, max: usize) -> (Vec<String>, u64) {
        use std::collections::BTreeSet;
        let mut keys: Vec<_> = self.bcache.iter().filter_map(|((op, w, a, b), r)| {
            use Bin::*;
            let name = match op { Add => "bvadd", Sub => "bvsub", Mul => "bvmul", And => "bvand", Or => "bvor", Xor => "bvxor", Shl => "bvshl", LShr => "bvlshr", AShr => "bvashr", UDiv => "bvudiv", URem => "bvurem", Eq => "=", Ne => "distinct", Ult => "bvult", Ule => "bvule", Ugt => "bvugt", Uge => "bvuge", Slt => "bvslt", Sle => "bvsle", Sgt => "bvsgt", Sge => "bvsge", _ => return None };
            if *w > 64 { return None }
            let var = match (self.single(*a), self.single(*b)) { (Some((x, _)), Some((y, _))) if x == y => x, (Some((x, _)), None) if b.s == 0 => x, (None, Some((x, _))) if a.s == 0 => x, _ => return None };
            if r.s != 0 && self.single(*r).map(|x| x.0) != Some(var) { return None }
            Some((a.s, b.s, a.c, b.c, *w, name, *op, *a, *b, *r, var))
        }).collect();
        keys.sort_by_key(|k| (k.0, k.1, k.2, k.3, k.4, k.5));
        let step = (keys.len() / max.max(1)).max(1);
        let mut out = vec![];
        let mut n = 0;
        for (_, _, _, _, w, name, op, a, b, r, var) in keys.into_iter().step_by(step) {
            if n >= max as u64 { break }
            n += 1;
            let at = |v: &V, i: usize| match self.single(*v) { Some((_, t)) => t[i], None => v.c };
            let ow = bin_w(op, w);
            let div = matches!(op, Bin::UDiv | Bin::URem);
            let mut done = BTreeSet::new();
            for i in 0..self.var_n[var as usize] {
                let (x, y, z) = (at(&a, i), at(&b, i), at(&r, i));
                if div && y == 0 || matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) && y >= w as u64 { continue } // not defined in the source language
                if !done.insert((x, y)) { continue }
                let e = format!("({} (_ bv{} {}) (_ bv{} {}))", name, x, w, y, w);
                out.push(if ow == 1 && !matches!(op, Bin::Add | Bin::Sub | Bin::Mul | Bin::And | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr | Bin::UDiv | Bin::URem) { format!("(distinct {} {})", e, z == 1) } else { format!("(distinct {} (_ bv{} {}))", e, z, ow) });
            }
        }
        (out, n)
    }
    pub fn eval(&self, id: u32, asg: &[usize]) -> u64 {
        let n = &self.nodes[id as usize];
        match &n.k {
            Kind::Const(c) => *c,
            Kind::Tbl(v, t) => t[asg[*v as usize]],
            Kind::Bin(op, w, a, b) => bin_c(*op, *w, self.eval(*a, asg), self.eval(*b, asg)),
            Kind::Un(op, w, a) => un_c(*op, *w, n.w, self.eval(*a, asg)),
            Kind::Ite(c, a, b) => if self.eval(*c, asg) != 0 { self.eval(*a, asg) } else { self.eval(*b, asg) },
            Kind::Concat(v) => v.iter().enumerate().fold(0, |acc, (i, x)| acc | self.eval(*x, asg) << (8 * i)),
            Kind::And(v) => v.iter().all(|x| self.eval(*x, asg) != 0) as u64,
            Kind::Not(a) => 1 - self.eval(*a, asg),
        }
    }
    pub fn evalv(&self, v: V, asg: &[usize]) -> u64 {
        if v.s == 0 { v.c } else { self.eval(v.s, asg) }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Bits(pub Box<[u64]>);
impl Bits {
    pub fn full(n: usize) -> Bits {
        let mut v = vec![u64::MAX; (n + 63) / 64];
        if n % 64 != 0 { let l = v.len() - 1; v[l] = (1u64 << (n % 64)) - 1; }
        Bits(v.into())
    }
    pub fn empty_like(&self) -> Bits { Bits(vec![0; self.0.len()].into()) }
    #[inline] pub fn get(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 != 0 }
    #[inline] pub fn set(&mut self, i: usize) { self.0[i / 64] |= 1 << (i % 64) }
    pub fn clear(&mut self, i: usize) { self.0[i / 64] &= !(1 << (i % 64)) }
    pub fn is_empty(&self) -> bool { self.0.iter().all(|x| *x == 0) }
    pub fn count(&self) -> usize { self.0.iter().map(|x| x.count_ones() as usize).sum() }
    pub fn first(&self) -> usize { for (i, w) in self.0.iter().enumerate() { if *w != 0 { return i * 64 + w.trailing_zeros() as usize } } panic!("empty domain") }
    pub fn iter(&self) -> BitIter<'_> { BitIter { b: self, w: self.0[0], i: 0 } }
    pub fn ranges(&self, n: usize) -> Vec<(usize, usize)> {
        let mut out = vec![];
        let mut i = 0;
        while i < n {
            if self.get(i) { let s = i; while i < n && self.get(i) { i += 1 } out.push((s, i - 1)); } else { i += 1 }
        }
        out
    }
}
pub struct BitIter<'a> { b: &'a Bits, w: u64, i: usize }
impl<'a> Iterator for BitIter<'a> {
    type Item = usize;
    #[inline]
    fn next(&mut self) -> Option<usize> {
        while self.w == 0 {
            self.i += 1;
            if self.i >= self.b.0.len() { return None }
            self.w = self.b.0[self.i];
        }
        let t = self.w.trailing_zeros() as usize;
        self.w &= self.w - 1;
        Some(self.i * 64 + t)
    }
}
