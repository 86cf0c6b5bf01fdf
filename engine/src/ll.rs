//! Parser for the subset of textual LLVM IR that rustc emits, and lowering to the
//! engine's register bytecode.  Everything unknown is a hard error: the engine never
//! guesses the meaning of an instruction.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Double,
    Float,
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Metadata,
    Label,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match *n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(v, p) => {
                if *p {
                    1
                } else {
                    v.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let s = ((*n as u64) + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(v, p) => {
                let mut o = 0;
                for t in v {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, &Ty) {
        match self {
            Ty::Array(_, t) => (i * t.size(), t),
            Ty::Struct(v, p) => {
                let mut o = 0;
                for (k, t) in v.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
    /// flattened scalar leaves: (offset, bits)
    pub fn leaves(&self) -> Vec<(u64, u32)> {
        let mut v = vec![];
        self.leaves_into(0, &mut v);
        v
    }
    fn leaves_into(&self, off: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void => {}
            Ty::Int(n) => {
                if *n <= 64 {
                    out.push((off, *n))
                } else {
                    out.push((off, 64));
                    out.push((off + 8, *n - 64));
                }
            }
            Ty::Ptr | Ty::Double => out.push((off, 64)),
            Ty::Float => out.push((off, 32)),
            Ty::Array(n, t) => {
                for i in 0..*n {
                    t.leaves_into(off + i * t.size(), out)
                }
            }
            Ty::Struct(v, _) => {
                for i in 0..v.len() {
                    let (o, t) = self.field_off(i as u64);
                    t.leaves_into(off + o, out)
                }
            }
            _ => panic!("leaves of {:?}", self),
        }
    }
    fn nleaves(&self) -> u32 {
        self.leaves().len() as u32
    }
}

pub type Opnd = u32; // register, or CONST | index into function constant pool
pub const CONST: u32 = 0x8000_0000;
pub const NOREG: u32 = 0xffff_ffff;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    UMin, UMax, SMin, SMax, UAddSat, USubSat,
    FAdd, FSub, FMul, FDiv,
    // comparisons (result 1 bit, operand width w)
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
    FOeq, FOne, FOlt, FOle, FOgt, FOge, FUne, FUeq,
    // overflow flags
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Un {
    ZExt, SExt, Trunc, Ctpop, Ctlz, Cttz, BSwap, BitRev, FNeg, UiToFp, SiToFp, Abs, FpToUiSat, FpToSiSat,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bin, w: u32, d: u32, a: Opnd, b: Opnd },
    /// from width w to width to
    Un { op: Un, w: u32, to: u32, d: u32, a: Opnd },
    Mov { d: u32, a: Opnd },
    Select { w: u32, d: u32, c: Opnd, a: Opnd, b: Opnd },
    /// d = base + idx*scale + off
    Gep { d: u32, base: Opnd, idx: Opnd, scale: u64, iw: u32 },
    Load { d: u32, addr: Opnd, off: u64, bits: u32 },
    Store { v: Opnd, addr: Opnd, off: u64, bits: u32 },
    Alloca { d: u32, size: u64, align: u64 },
    Br { e: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { v: Opnd, w: u32, def: u32, cases: Box<HashMap<u64, u32>> },
    Call { f: u32, args: Box<[Opnd]>, d: u32 },
    CallInd { p: Opnd, args: Box<[Opnd]>, d: u32 },
    Intr { f: Intr, args: Box<[Opnd]>, d: u32 },
    Ret { vals: Box<[Opnd]> },
    Unreachable,
    Big { op: BigOp, d: u32, a: [Opnd; 2], b: [Opnd; 2] },
    Fshl { w: u32, d: u32, a: Opnd, b: Opnd, c: Opnd, right: bool },
}
#[derive(Clone, Copy, Debug)]
pub enum BigOp { Mul, Add, Sub, And, Or, Xor, Shl, LShr, Eq, Ne, Ult, UDiv, URem }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy, Memset, Memcmp, Trap,
    VAlloc, VPanic, VInput, VParam, VFail, VTrace, VCover, VNote, VAssume,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32, // pc
    pub block: u32,
    pub moves: Vec<(u32, Opnd)>,
}

pub struct Func {
    pub name: String,
    pub defined: bool,
    pub nregs: u32,
    pub nparams: u32,
    pub consts: Vec<u64>,
    pub code: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub edges: Vec<Edge>,
    pub block_base: u32,          // global block id of block 0
    pub block_start: Vec<u32>,    // pc of each block
    pub ret_leaves: u32,
    /// size of the sret object, if the first parameter is one
    pub sret: u64,
    pub ret_bits: Vec<u32>,
    /// set for functions the engine treats specially
    pub special: u8,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fn_by_name: HashMap<String, u32>,
    pub image: Vec<u8>, // globals
    pub nblocks: u32,
    pub dbg_loc: HashMap<u32, (u32, u32)>, // !N -> (file idx, line)
    pub files: Vec<String>,
}

pub const FN_BASE: u64 = 0x1_0000;
pub const GLOB_BASE: u64 = 0x1000_0000;

struct Cur<'a> {
    s: &'a str,
    p: usize,
}
impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s, p: 0 }
    }
    fn ws(&mut self) {
        let b = self.s.as_bytes();
        while self.p < b.len() && (b[self.p] == b' ' || b[self.p] == b'\t' || b[self.p] == b'\n') {
            self.p += 1
        }
    }
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.as_bytes().get(self.p).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.rest().starts_with(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            panic!("IR parse: expected {:?} at {:?} in {:?}", t, &self.rest()[..self.rest().len().min(60)], &self.s[..self.s.len().min(300)])
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let b = self.s.as_bytes();
        let st = self.p;
        while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || b[self.p] == b'_' || b[self.p] == b'.' || b[self.p] == b'-') {
            self.p += 1
        }
        &self.s[st..self.p]
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    /// name after % or @
    fn name(&mut self) -> String {
        let b = self.s.as_bytes();
        if b[self.p] == b'"' {
            let st = self.p + 1;
            self.p += 1;
            while b[self.p] != b'"' {
                self.p += 1
            }
            self.p += 1;
            return self.s[st..self.p - 1].to_string();
        }
        let st = self.p;
        while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || matches!(b[self.p], b'_' | b'.' | b'-' | b'$')) {
            self.p += 1
        }
        self.s[st..self.p].to_string()
    }
    fn balanced(&mut self) {
        // at '('
        let b = self.s.as_bytes();
        let mut d = 0;
        loop {
            match b[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while b[self.p] != b'"' {
                        self.p += 1
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn ty(&mut self) -> Ty {
        match self.peek() {
            b'{' => {
                self.p += 1;
                let v = self.tylist("}");
                Ty::Struct(v, false)
            }
            b'<' => {
                self.p += 1;
                if self.eat("{") {
                    let v = self.tylist("}");
                    self.expect(">");
                    Ty::Struct(v, true)
                } else {
                    panic!("vector type in IR: {}", self.s)
                }
            }
            b'[' => {
                self.p += 1;
                let n: u64 = self.word().parse().unwrap();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Array(n, Box::new(t))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::Double,
                    "float" => Ty::Float,
                    "metadata" => Ty::Metadata,
                    "label" => Ty::Label,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("IR type {:?} in {:?}", w, &self.s[..self.s.len().min(400)]),
                }
            }
        }
    }
    fn tylist(&mut self, end: &str) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(",");
        }
    }
    fn attrs(&mut self) {
        const CW: &[&str] = &["null", "undef", "poison", "true", "false", "zeroinitializer", "inttoptr", "ptrtoint", "getelementptr", "trunc", "add", "sub", "xor"];
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            if CW.contains(&w) {
                return;
            }
            self.word();
            if w == "align" {
                if self.peek() == b'(' { self.balanced() } else { self.word(); }
            } else if self.peek() == b'(' {
                self.balanced()
            }
        }
    }
    fn ret_attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            if matches!(w, "void" | "ptr" | "double" | "float") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) {
                return;
            }
            self.word();
            if w == "cc" || w == "align" {
                self.word();
            } else if self.peek() == b'(' {
                self.balanced()
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Val {
    Reg(String),
    Const(Vec<u64>), // flattened leaves
}

pub struct Loader {
    globs: HashMap<String, (u64, String)>, // name -> addr, init text
    fnaddr: HashMap<String, u64>,
}

fn parse_float(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") {
        return f64::from_bits(u64::from_str_radix(h, 16).unwrap());
    }
    match s {
        "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+qnan" | "+nan" => f64::NAN,
        "-qnan" => -f64::NAN,
        _ => s.parse().unwrap_or_else(|_| panic!("float const {:?}", s)),
    }
}

impl Loader {
    fn gaddr(&self, n: &str) -> u64 {
        if let Some((a, _)) = self.globs.get(n) {
            return *a;
        }
        *self.fnaddr.get(n).unwrap_or_else(|| panic!("unknown global @{}", n))
    }
    /// constant of type ty -> flattened leaves
    fn constant(&self, c: &mut Cur, ty: &Ty) -> Vec<u64> {
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return vec![self.gaddr(&n)];
            }
            b'c' if c.rest().starts_with("c\"") => {
                c.p += 2;
                let b = c.s.as_bytes();
                let mut out = vec![];
                while b[c.p] != b'"' {
                    if b[c.p] == b'\\' {
                        if b[c.p + 1] == b'\\' {
                            out.push(b'\\' as u64);
                            c.p += 2;
                        } else {
                            out.push(u64::from_str_radix(&c.s[c.p + 1..c.p + 3], 16).unwrap());
                            c.p += 3;
                        }
                    } else {
                        out.push(b[c.p] as u64);
                        c.p += 1
                    }
                }
                c.p += 1;
                return out;
            }
            b'{' | b'[' | b'<' => {
                let packed = c.eat("<");
                let close = if c.peek() == b'{' { "}" } else { "]" };
                c.p += 1;
                let mut out = vec![];
                if !c.eat(close) {
                    loop {
                        let t = c.ty();
                        out.extend(self.constant(c, &t));
                        if c.eat(close) {
                            break;
                        }
                        c.expect(",");
                    }
                }
                if packed {
                    c.expect(">");
                }
                return out;
            }
            _ => {}
        }
        let n = ty.leaves().len();
        if c.peek() == b'+' {
            let st = c.p;
            c.p += 1;
            c.word();
            return vec![parse_float(&c.s[st..c.p]).to_bits()];
        }
        let st = { c.ws(); c.p };
        let w = c.word();
        match w {
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => return vec![0; n],
            "true" => return vec![1],
            "false" => return vec![0],
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                c.expect("(");
                let t = c.ty();
                let v = self.constant(c, &t);
                c.expect("to");
                let t2 = c.ty();
                c.expect(")");
                if w == "trunc" { if let Ty::Int(k) = t2 { return vec![mask(v[0], k)]; } }
                return v;
            }
            "getelementptr" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.expect("(");
                let t = c.ty();
                c.expect(",");
                let bt = c.ty();
                let b = self.constant(c, &bt)[0];
                let mut off = 0u64;
                let mut cur = &t;
                let mut first = true;
                while c.eat(",") {
                    let it = c.ty();
                    let i = self.constant(c, &it)[0];
                    if first {
                        off = off.wrapping_add(i.wrapping_mul(t.size()));
                        first = false;
                    } else {
                        let (o, tt) = cur.field_off(i);
                        off = off.wrapping_add(o);
                        cur = tt;
                    }
                }
                c.expect(")");
                return vec![b.wrapping_add(off)];
            }
            _ => {}
        }
        match ty {
            Ty::Int(k) => {
                let w = &c.s[st..c.p];
                if *k <= 64 {
                    let v: i128 = w.parse().unwrap_or_else(|_| panic!("int const {:?} in {}", w, &c.s[..c.s.len().min(300)]));
                    vec![mask(v as u64, *k)]
                } else {
                    let neg = w.starts_with('-');
                    let m: u128 = w.trim_start_matches('-').parse().unwrap();
                    let m = if neg { m.wrapping_neg() } else { m };
                    vec![m as u64, (m >> 64) as u64]
                }
            }
            Ty::Double => {
                // word() stops at '+' in exponents
                let b = c.s.as_bytes();
                while c.p < b.len() && (b[c.p] == b'+' || b[c.p].is_ascii_alphanumeric()) {
                    c.p += 1
                }
                vec![parse_float(&c.s[st..c.p]).to_bits()]
            }
            _ => panic!("constant {:?} of type {:?} in {}", w, ty, &c.s[..c.s.len().min(300)]),
        }
    }
}

pub fn mask(v: u64, w: u32) -> u64 {
    if w >= 64 { v } else { v & ((1u64 << w) - 1) }
}
pub fn sext(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

struct FB<'l> {
    l: &'l Loader,
    regs: HashMap<String, (u32, Ty)>,
    nregs: u32,
    consts: Vec<u64>,
    cmap: HashMap<u64, u32>,
    code: Vec<Inst>,
    dbg: Vec<u32>,
    cur_dbg: u32,
}
impl<'l> FB<'l> {
    fn reg(&mut self, n: &str, ty: &Ty) -> u32 {
        if let Some((r, t)) = self.regs.get(n) {
            if t != ty { assert_eq!(t.leaves(), ty.leaves(), "reg type mismatch {}", n); }
            return *r;
        }
        let r = self.nregs;
        self.nregs += ty.nleaves().max(1);
        self.regs.insert(n.to_string(), (r, ty.clone()));
        r
    }
    fn tmp(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
    fn cst(&mut self, v: u64) -> Opnd {
        if let Some(i) = self.cmap.get(&v) {
            return CONST | *i;
        }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        self.cmap.insert(v, i);
        CONST | i
    }
    fn val(&mut self, c: &mut Cur, ty: &Ty) -> Val {
        if c.peek() == b'%' {
            c.p += 1;
            Val::Reg(c.name())
        } else {
            Val::Const(self.l.constant(c, ty))
        }
    }
    fn ops(&mut self, v: Val, ty: &Ty) -> Vec<Opnd> {
        match v {
            Val::Reg(n) => {
                let r = self.reg(&n, ty);
                (0..ty.nleaves()).map(|i| r + i).collect()
            }
            Val::Const(v) => v.into_iter().map(|x| self.cst(x)).collect(),
        }
    }
    fn opnds(&mut self, c: &mut Cur, ty: &Ty) -> Vec<Opnd> {
        let v = self.val(c, ty);
        self.ops(v, ty)
    }
    fn opnd(&mut self, c: &mut Cur, ty: &Ty) -> Opnd {
        self.opnds(c, ty)[0]
    }
    fn emit(&mut self, i: Inst) {
        self.code.push(i);
        self.dbg.push(self.cur_dbg);
    }
}

fn width(t: &Ty) -> u32 {
    match t {
        Ty::Int(n) => *n,
        Ty::Ptr | Ty::Double => 64,
        Ty::Float => 32,
        _ => panic!("width of {:?}", t),
    }
}

pub struct Options<'a> {
    /// functions whose name contains the needle get special id
    pub special: &'a [(&'a str, u8)],
}

pub fn load(text: &str, opt: &Options) -> Module {
    let mut l = Loader { globs: HashMap::new(), fnaddr: HashMap::new() };
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: names
    let mut fnames: Vec<(String, bool, usize)> = vec![];
    let mut addr = GLOB_BASE;
    let mut globals: Vec<(String, usize)> = vec![];
    let mut md: HashMap<u32, &str> = HashMap::new();
    for (i, ln) in lines.iter().enumerate() {
        if ln.starts_with('@') {
            let mut c = Cur::new(ln);
            c.p = 1;
            let n = c.name();
            c.expect("=");
            globals.push((n, i));
        } else if ln.starts_with("define ") || ln.starts_with("declare ") {
            let at = ln.find('@').unwrap();
            let mut c = Cur::new(ln);
            c.p = at + 1;
            let n = c.name();
            l.fnaddr.insert(n.clone(), FN_BASE + 16 * fnames.len() as u64);
            fnames.push((n, ln.starts_with("define"), i));
        } else if ln.starts_with('!') {
            if let Some(eq) = ln.find(" = ") {
                if let Ok(k) = ln[1..eq].parse::<u32>() {
                    md.insert(k, &ln[eq + 3..]);
                }
            }
        }
    }
    let mut ginit: Vec<(u64, Ty, String)> = vec![];
    for (n, i) in &globals {
        let ln = lines[*i];
        let mut c = Cur::new(ln);
        c.p = 1;
        c.name();
        c.expect("=");
        // linkage etc. up to 'global' or 'constant'
        loop {
            let w = c.word();
            if w == "global" || w == "constant" {
                break;
            }
            if w == "alias" { panic!("alias {}", ln) }
            if c.peek() == b'(' { c.balanced() }
            if w.is_empty() { panic!("global {}", ln) }
        }
        let t = c.ty();
        addr = (addr + 15) / 16 * 16;
        l.globs.insert(n.clone(), (addr, String::new()));
        ginit.push((addr, t.clone(), c.rest().to_string()));
        addr += t.size().max(1);
    }
    let mut image = vec![0u8; (addr - GLOB_BASE) as usize + 64];
    for (a, t, init) in &ginit {
        let mut c = Cur::new(init);
        let v = l.constant(&mut c, t);
        let lv = t.leaves();
        assert_eq!(v.len(), lv.len(), "global init {} {:?}", init, t);
        for ((off, bits), x) in lv.iter().zip(v) {
            let nb = (bits + 7) / 8;
            for k in 0..nb as u64 {
                image[(a - GLOB_BASE + off + k) as usize] = (x >> (8 * k)) as u8;
            }
        }
    }
    let mut m = Module {
        funcs: vec![],
        fn_by_name: HashMap::new(),
        image,
        nblocks: 0,
        dbg_loc: HashMap::new(),
        files: vec![],
    };
    for (k, (n, _, _)) in fnames.iter().enumerate() {
        m.fn_by_name.insert(n.clone(), k as u32);
    }
    let names: HashMap<String, u32> = m.fn_by_name.clone();
    let mut nblocks = 0;
    let undefined = |name: String| Func { name, defined: false, nregs: 0, nparams: 0, consts: vec![], code: vec![], dbg: vec![], edges: vec![], block_base: 0, block_start: vec![], ret_leaves: 0, sret: 0, ret_bits: vec![], special: 0 };
    for (n, def, i) in &fnames {
        let special = opt.special.iter().find(|(s, _)| n.contains(s)).map(|x| x.1).unwrap_or(0);
        let mut f = if *def {
            // what cannot be translated is an error only when it is reached
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lower(&l, &lines, *i, n, &names))) {
                Ok(f) => f,
                Err(e) => undefined(format!("{} ({})", n, e.downcast_ref::<String>().cloned().unwrap_or_default())),
            }
        } else {
            undefined(n.clone())
        };
        f.special = special;
        f.block_base = nblocks;
        nblocks += f.block_start.len() as u32;
        m.funcs.push(f);
    }
    m.nblocks = nblocks;
    // debug locations
    let mut file_of_scope: HashMap<u32, u32> = HashMap::new();
    let mut files: Vec<String> = vec![];
    let mut fidx: HashMap<u32, u32> = HashMap::new();
    let get = |s: &str, key: &str| -> Option<u32> {
        let p = s.find(key)?;
        let r = &s[p + key.len()..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        r[..e].parse().ok()
    };
    let mut used: std::collections::HashSet<u32> = Default::default();
    for f in &m.funcs { for d in &f.dbg { used.insert(*d); } }
    for d in used {
        let Some(s) = md.get(&d) else { continue };
        if !s.contains("!DILocation(") { continue }
        let line = get(s, "line: ").unwrap_or(0);
        let Some(sc) = get(s, "scope: !") else { continue };
        let fi = if let Some(x) = file_of_scope.get(&sc) { *x } else {
            let mut cur = sc;
            let mut res = u32::MAX;
            for _ in 0..50 {
                let Some(t) = md.get(&cur) else { break };
                if let Some(fl) = get(t, "file: !") {
                    res = *fidx.entry(fl).or_insert_with(|| {
                        let t = md.get(&fl).unwrap();
                        let p = t.find("filename: \"").unwrap() + 11;
                        let e = t[p..].find('"').unwrap();
                        files.push(t[p..p + e].to_string());
                        files.len() as u32 - 1
                    });
                    break;
                }
                match get(t, "scope: !") { Some(x) => cur = x, None => break }
            }
            file_of_scope.insert(sc, res);
            res
        };
        if fi != u32::MAX { m.dbg_loc.insert(d, (fi, line)); }
    }
    m.files = files;
    m
}

fn strip_md(ln: &str) -> (&str, u32) {
    // returns text before first ", !" attachment and the !dbg number
    let mut dbg = 0;
    if let Some(p) = ln.find(", !dbg !") {
        let r = &ln[p + 8..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        dbg = r[..e].parse().unwrap_or(0);
    }
    let cut = ln.find(", !").unwrap_or(ln.len());
    (&ln[..cut], dbg)
}

fn lower(l: &Loader, lines: &[&str], at: usize, name: &str, names: &HashMap<String, u32>) -> Func {
    let head = lines[at];
    let mut fb = FB { l, regs: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new(), code: vec![], dbg: vec![], cur_dbg: 0 };
    let mut c = Cur::new(head);
    c.expect("define");
    // skip linkage/visibility/cc/ret attrs
    loop {
        let b = c.peek();
        if !b.is_ascii_alphabetic() { break }
        let w = c.peek_word();
        if matches!(w, "void" | "ptr" | "double" | "float") || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) { break }
        c.word();
        if w == "align" || w == "cc" { c.word(); } else if c.peek() == b'(' { c.balanced() }
    }
    let rty = c.ty();
    c.expect("@");
    c.name();
    c.expect("(");
    let mut nparams = 0;
    let mut next_id = 0u32;
    if !c.eat(")") {
        loop {
            let t = c.ty();
            c.attrs();
            let n = if c.peek() == b'%' { c.p += 1; c.name() } else { let s = next_id.to_string(); s };
            if n.parse::<u32>().is_ok() { next_id = n.parse::<u32>().unwrap() + 1; }
            fb.reg(&n, &t);
            nparams += t.nleaves();
            if c.eat(")") { break }
            c.expect(",");
        }
    }
    // collect blocks: (label, lines)
    let mut blocks: Vec<(String, Vec<String>)> = vec![];
    let mut i = at + 1;
    while lines[i] != "}" {
        let ln = lines[i];
        i += 1;
        let t = ln.trim();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") { continue }
        if !ln.starts_with(' ') {
            // label
            let lab = if t.starts_with('"') { t[1..].split('"').next().unwrap().to_string() } else { t.split(':').next().unwrap().to_string() };
            blocks.push((lab, vec![]));
            continue;
        }
        if blocks.is_empty() { blocks.push((next_id.to_string(), vec![])) }
        let mut s = t.to_string();
        if t.starts_with("switch ") && !t.contains(']') {
            loop {
                let u = lines[i].trim();
                i += 1;
                s.push(' ');
                s.push_str(u);
                if u.starts_with(']') { break }
            }
        }
        blocks.last_mut().unwrap().1.push(s);
    }
    let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
    // phis
    struct Phi { d: u32, n: u32, inc: Vec<(Vec<Opnd>, u32)> }
    let mut phis: Vec<Vec<Phi>> = vec![];
    for (_, ls) in &blocks {
        let mut v = vec![];
        for s in ls {
            let (s, _) = strip_md(s);
            if let Some(eq) = s.find(" = phi ") {
                let n = &s[1..eq];
                let n = n.trim_matches('"');
                let mut c = Cur::new(&s[eq + 7..]);
                let t = {
                    // fast-math flags
                    while matches!(c.peek_word(), "nnan" | "ninf" | "nsz" | "fast" | "contract" | "arcp" | "afn" | "reassoc") { c.word(); }
                    c.ty()
                };
                let d = fb.reg(n, &t);
                let mut inc = vec![];
                loop {
                    c.expect("[");
                    let o = fb.opnds(&mut c, &t);
                    c.expect(",");
                    c.expect("%");
                    let b = c.name();
                    c.expect("]");
                    inc.push((o, bidx[&b]));
                    if !c.eat(",") { break }
                }
                v.push(Phi { d, n: t.nleaves(), inc });
            }
        }
        phis.push(v);
    }
    let mut edges: Vec<Edge> = vec![];
    let mut block_start = vec![];
    for bi in 0..blocks.len() {
        block_start.push(fb.code.len() as u32);
        let mk = |edges: &mut Vec<Edge>, to: &str| -> u32 {
            let t = bidx[to];
            let mut moves = vec![];
            for p in &phis[t as usize] {
                let (o, _) = p.inc.iter().find(|x| x.1 == bi as u32).unwrap_or_else(|| panic!("phi edge"));
                for k in 0..p.n { moves.push((p.d + k, o[k as usize])) }
            }
            edges.push(Edge { target: 0, block: t, moves });
            edges.len() as u32 - 1
        };
        let ls = std::mem::take(&mut blocks[bi].1);
        for s0 in &ls {
            let (s, dbg) = strip_md(s0);
            fb.cur_dbg = dbg;
            if s.contains(" = phi ") && s.starts_with('%') { continue }
            let (dst, body) = if s.starts_with('%') {
                let mut c = Cur::new(s);
                c.p = 1;
                let n = c.name();
                c.expect("=");
                c.ws();
                (Some(n), c.rest())
            } else { (None, s) };
            let mut c = Cur::new(body);
            let mut op = c.word();
            while matches!(op, "tail" | "musttail" | "notail") { op = c.word() }
            let flags = |c: &mut Cur| {
                while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "nnan" | "ninf" | "nsz" | "fast" | "contract" | "arcp" | "afn" | "reassoc" | "volatile" | "inrange" | "atomic" | "weak") { c.word(); if c.peek()==b'(' { c.balanced() } }
            };
            match op {
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" => {
                    flags(&mut c);
                    let t = c.ty();
                    let a = fb.opnds(&mut c, &t);
                    c.expect(",");
                    let b = fb.opnds(&mut c, &t);
                    let d = fb.reg(&dst.unwrap(), &t);
                    if let Ty::Int(n) = t { if n > 64 {
                        let bop = match op { "mul" => BigOp::Mul, "add" => BigOp::Add, "sub" => BigOp::Sub, "and" => BigOp::And, "or" => BigOp::Or, "xor" => BigOp::Xor, "shl" => BigOp::Shl, "lshr" => BigOp::LShr, "udiv" => BigOp::UDiv, "urem" => BigOp::URem, _ => panic!("big op {}", s) };
                        assert_eq!(n, 128);
                        fb.emit(Inst::Big { op: bop, d, a: [a[0], a[1]], b: [b[0], b[1]] });
                        continue;
                    } }
                    let bop = match op {
                        "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem,
                        "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr,
                        "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, _ => Bin::FDiv,
                    };
                    fb.emit(Inst::Bin { op: bop, w: width(&t), d, a: a[0], b: b[0] });
                }
                "icmp" | "fcmp" => {
                    flags(&mut c);
                    let mut p = c.word();
                    while p == "samesign" { p = c.word() }
                    flags(&mut c);
                    let t = c.ty();
                    let a = fb.opnds(&mut c, &t);
                    c.expect(",");
                    let b = fb.opnds(&mut c, &t);
                    let d = fb.reg(&dst.unwrap(), &Ty::Int(1));
                    if let Ty::Int(n) = t { if n > 64 {
                        let bop = match p { "eq" => BigOp::Eq, "ne" => BigOp::Ne, "ult" => BigOp::Ult, _ => panic!("big cmp {}", s) };
                        fb.emit(Inst::Big { op: bop, d, a: [a[0], a[1]], b: [b[0], b[1]] });
                        continue;
                    } }
                    let bop = match (op, p) {
                        ("icmp", "eq") => Bin::Eq, ("icmp", "ne") => Bin::Ne, (_, "ult") if op == "icmp" => Bin::Ult, ("icmp", "ule") => Bin::Ule, ("icmp", "ugt") => Bin::Ugt, ("icmp", "uge") => Bin::Uge,
                        ("icmp", "slt") => Bin::Slt, ("icmp", "sle") => Bin::Sle, ("icmp", "sgt") => Bin::Sgt, ("icmp", "sge") => Bin::Sge,
                        ("fcmp", "oeq") => Bin::FOeq, ("fcmp", "one") => Bin::FOne, ("fcmp", "olt") => Bin::FOlt, ("fcmp", "ole") => Bin::FOle, ("fcmp", "ogt") => Bin::FOgt, ("fcmp", "oge") => Bin::FOge, ("fcmp", "une") => Bin::FUne, ("fcmp", "ueq") => Bin::FUeq,
                        _ => panic!("cmp {}", s),
                    };
                    fb.emit(Inst::Bin { op: bop, w: width(&t), d, a: a[0], b: b[0] });
                }
                "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "ptrtoaddr" | "freeze" | "fneg" => {
                    flags(&mut c);
                    let t = c.ty();
                    let a = fb.opnds(&mut c, &t);
                    let t2 = if op == "freeze" || op == "fneg" { t.clone() } else { c.expect("to"); c.ty() };
                    let d = fb.reg(&dst.unwrap(), &t2);
                    if matches!(op, "freeze") { for (k, x) in a.iter().enumerate() { fb.emit(Inst::Mov { d: d + k as u32, a: *x }) } continue }
                    let w1 = width(&t);
                    let w2 = width(&t2);
                    match op {
                        "zext" if w2 > 64 => {
                            assert!(w1 <= 64);
                            fb.emit(Inst::Mov { d, a: a[0] });
                            let z = fb.cst(0);
                            fb.emit(Inst::Mov { d: d + 1, a: z });
                        }
                        "trunc" if w1 > 64 => {
                            assert!(w2 <= 64);
                            fb.emit(Inst::Un { op: Un::Trunc, w: 64, to: w2, d, a: a[0] });
                        }
                        "zext" => fb.emit(Inst::Un { op: Un::ZExt, w: w1, to: w2, d, a: a[0] }),
                        "sext" => { assert!(w2 <= 64); fb.emit(Inst::Un { op: Un::SExt, w: w1, to: w2, d, a: a[0] }) }
                        "trunc" => fb.emit(Inst::Un { op: Un::Trunc, w: w1, to: w2, d, a: a[0] }),
                        "uitofp" => fb.emit(Inst::Un { op: Un::UiToFp, w: w1, to: w2, d, a: a[0] }),
                        "sitofp" => fb.emit(Inst::Un { op: Un::SiToFp, w: w1, to: w2, d, a: a[0] }),
                        "fneg" => fb.emit(Inst::Un { op: Un::FNeg, w: w1, to: w2, d, a: a[0] }),
                        _ => {
                            if w1 == w2 { fb.emit(Inst::Mov { d, a: a[0] }) }
                            else if w1 > w2 { fb.emit(Inst::Un { op: Un::Trunc, w: w1, to: w2, d, a: a[0] }) }
                            else { fb.emit(Inst::Un { op: Un::ZExt, w: w1, to: w2, d, a: a[0] }) }
                        }
                    }
                }
                "select" => {
                    flags(&mut c);
                    c.expect("i1");
                    let cc = fb.opnd(&mut c, &Ty::Int(1));
                    c.expect(",");
                    let t = c.ty();
                    let a = fb.opnds(&mut c, &t);
                    c.expect(",");
                    let t2 = c.ty();
                    let b = fb.opnds(&mut c, &t2);
                    let d = fb.reg(&dst.unwrap(), &t);
                    let lv = t.leaves();
                    for k in 0..a.len() { fb.emit(Inst::Select { w: lv[k].1, d: d + k as u32, c: cc, a: a[k], b: b[k] }) }
                }
                "getelementptr" => {
                    flags(&mut c);
                    let t = c.ty();
                    c.expect(",");
                    c.expect("ptr");
                    let base = fb.opnd(&mut c, &Ty::Ptr);
                    let d = fb.reg(&dst.unwrap(), &Ty::Ptr);
                    let mut cur = t.clone();
                    let mut first = true;
                    let mut coff = 0u64;
                    let mut acc = base;
                    let mut dyns: Vec<(Opnd, u64, u32)> = vec![];
                    while c.eat(",") {
                        let it = c.ty();
                        let v = fb.val(&mut c, &it);
                        let scale = if first { t.size() } else {
                            match &cur { Ty::Array(_, e) => e.size(), _ => 0 }
                        };
                        match v {
                            Val::Const(x) => {
                                let x = sext(x[0], width(&it)) as u64;
                                if first { coff = coff.wrapping_add(x.wrapping_mul(scale)) } else {
                                    let (o, tt) = cur.field_off(x);
                                    let tt = tt.clone();
                                    coff = coff.wrapping_add(o);
                                    cur = tt;
                                }
                            }
                            Val::Reg(_) => {
                                let o = fb.ops(v, &it)[0];
                                dyns.push((o, scale, width(&it)));
                                if !first { let e = match &cur { Ty::Array(_, e) => (**e).clone(), _ => panic!("gep dyn struct") }; cur = e; }
                            }
                        }
                        first = false;
                    }
                    let nd = dyns.len();
                    for (k, (o, sc, iw)) in dyns.into_iter().enumerate() {
                        let dd = if k + 1 == nd && coff == 0 { d } else { fb.tmp() };
                        fb.emit(Inst::Gep { d: dd, base: acc, idx: o, scale: sc, iw });
                        acc = dd;
                    }
                    if coff != 0 {
                        let k = fb.cst(coff);
                        fb.emit(Inst::Bin { op: Bin::Add, w: 64, d, a: acc, b: k });
                    } else if nd == 0 {
                        fb.emit(Inst::Mov { d, a: acc });
                    }
                }
                "load" => {
                    flags(&mut c);
                    let t = c.ty();
                    c.expect(",");
                    c.expect("ptr");
                    let p = fb.opnd(&mut c, &Ty::Ptr);
                    let d = fb.reg(&dst.unwrap(), &t);
                    for (k, (off, bits)) in t.leaves().into_iter().enumerate() {
                        fb.emit(Inst::Load { d: d + k as u32, addr: p, off, bits });
                    }
                }
                "store" => {
                    flags(&mut c);
                    let t = c.ty();
                    let v = fb.opnds(&mut c, &t);
                    c.expect(",");
                    c.expect("ptr");
                    let p = fb.opnd(&mut c, &Ty::Ptr);
                    for (k, (off, bits)) in t.leaves().into_iter().enumerate() {
                        fb.emit(Inst::Store { v: v[k], addr: p, off, bits });
                    }
                }
                // one thread: an atomic operation is its plain one
                "fence" => {}
                "atomicrmw" => {
                    flags(&mut c);
                    let how = c.word().to_string();
                    c.expect("ptr");
                    let p = fb.opnd(&mut c, &Ty::Ptr);
                    c.expect(",");
                    let t = c.ty();
                    let v = fb.opnd(&mut c, &t);
                    let w = width(&t);
                    let d = match &dst { Some(n) => fb.reg(n, &t), None => fb.tmp() };
                    fb.emit(Inst::Load { d, addr: p, off: 0, bits: w });
                    let r = fb.tmp();
                    let o = match how.as_str() { "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "and" | "nand" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor), "max" => Some(Bin::SMax), "min" => Some(Bin::SMin), "umax" => Some(Bin::UMax), "umin" => Some(Bin::UMin), "xchg" => None, _ => panic!("unsupported atomicrmw {}", s) };
                    match o {
                        Some(o) => fb.emit(Inst::Bin { op: o, w, d: r, a: d.into(), b: v }),
                        None => fb.emit(Inst::Mov { d: r, a: v }),
                    }
                    if how == "nand" {
                        let m = fb.cst(if w >= 64 { u64::MAX } else { (1 << w) - 1 });
                        fb.emit(Inst::Bin { op: Bin::Xor, w, d: r, a: r.into(), b: m });
                    }
                    fb.emit(Inst::Store { v: r.into(), addr: p, off: 0, bits: w });
                }
                "cmpxchg" => {
                    flags(&mut c);
                    c.expect("ptr");
                    let p = fb.opnd(&mut c, &Ty::Ptr);
                    c.expect(",");
                    let t = c.ty();
                    let old = fb.opnd(&mut c, &t);
                    c.expect(",");
                    let t = c.ty();
                    let new = fb.opnd(&mut c, &t);
                    let w = width(&t);
                    let d = match &dst { Some(n) => fb.reg(n, &Ty::Struct(vec![t.clone(), Ty::Int(1)], false)), None => { let d = fb.tmp(); fb.tmp(); d } };
                    let r = fb.tmp();
                    fb.emit(Inst::Load { d, addr: p, off: 0, bits: w });
                    fb.emit(Inst::Bin { op: Bin::Eq, w, d: d + 1, a: d.into(), b: old });
                    fb.emit(Inst::Select { w, d: r, c: (d + 1).into(), a: new, b: d.into() });
                    fb.emit(Inst::Store { v: r.into(), addr: p, off: 0, bits: w });
                }
                "alloca" => {
                    let t = c.ty();
                    let mut align = 16;
                    while c.eat(",") { if c.eat("align") { align = c.word().parse().unwrap() } else { panic!("alloca {}", s) } }
                    let d = fb.reg(&dst.unwrap(), &Ty::Ptr);
                    fb.emit(Inst::Alloca { d, size: t.size(), align });
                }
                "br" => {
                    if c.eat("label") {
                        c.expect("%");
                        let e = mk(&mut edges, &c.name());
                        fb.emit(Inst::Br { e });
                    } else {
                        c.expect("i1");
                        let cc = fb.opnd(&mut c, &Ty::Int(1));
                        c.expect(",");
                        c.expect("label");
                        c.expect("%");
                        let t = mk(&mut edges, &c.name());
                        c.expect(",");
                        c.expect("label");
                        c.expect("%");
                        let f = mk(&mut edges, &c.name());
                        fb.emit(Inst::CondBr { c: cc, t, f });
                    }
                }
                "switch" => {
                    let t = c.ty();
                    let v = fb.opnd(&mut c, &t);
                    c.expect(",");
                    c.expect("label");
                    c.expect("%");
                    let def = mk(&mut edges, &c.name());
                    c.expect("[");
                    let mut cases = HashMap::new();
                    let mut tgt: HashMap<String, u32> = HashMap::new();
                    while !c.eat("]") {
                        let ct = c.ty();
                        let k = l.constant(&mut c, &ct)[0];
                        c.expect(",");
                        c.expect("label");
                        c.expect("%");
                        let n = c.name();
                        let e = *tgt.entry(n.clone()).or_insert_with(|| mk(&mut edges, &n));
                        cases.insert(k, e);
                    }
                    fb.emit(Inst::Switch { v, w: width(&t), def, cases: Box::new(cases) });
                }
                "ret" => {
                    let t = c.ty();
                    let v = if t == Ty::Void { vec![] } else { fb.opnds(&mut c, &t) };
                    fb.emit(Inst::Ret { vals: v.into() });
                }
                "unreachable" => fb.emit(Inst::Unreachable),
                "extractvalue" => {
                    let t = c.ty();
                    let v = fb.opnds(&mut c, &t);
                    c.expect(",");
                    let i: u64 = c.word().parse().unwrap();
                    assert!(!c.eat(","), "nested extractvalue {}", s);
                    let (o, e) = match &t { Ty::Struct(fs, _) => (fs[..i as usize].iter().map(|x| x.nleaves()).sum::<u32>(), fs[i as usize].clone()), Ty::Array(_, e) => (i as u32 * e.nleaves(), (**e).clone()), _ => panic!() };
                    let d = fb.reg(&dst.unwrap(), &e);
                    for k in 0..e.nleaves() { fb.emit(Inst::Mov { d: d + k, a: v[(o + k) as usize] }) }
                }
                "insertvalue" => {
                    let t = c.ty();
                    let v = fb.opnds(&mut c, &t);
                    c.expect(",");
                    let et = c.ty();
                    let x = fb.opnds(&mut c, &et);
                    c.expect(",");
                    let i: u64 = c.word().parse().unwrap();
                    assert!(!c.eat(","), "nested insertvalue {}", s);
                    let o = match &t { Ty::Struct(fs, _) => fs[..i as usize].iter().map(|x| x.nleaves()).sum::<u32>(), Ty::Array(_, e) => i as u32 * e.nleaves(), _ => panic!() };
                    let d = fb.reg(&dst.unwrap(), &t);
                    for k in 0..t.nleaves() {
                        let a = if k >= o && k < o + et.nleaves() { x[(k - o) as usize] } else { v[k as usize] };
                        fb.emit(Inst::Mov { d: d + k, a });
                    }
                }
                "call" => {
                    flags(&mut c);
                    c.ret_attrs();
                    let rt = c.ty();
                    c.ws();
                    if c.peek() == b'(' { c.balanced() }
                    let callee = if c.eat("@") { Ok(c.name()) } else { c.expect("%"); Err(c.name()) };
                    if let Ok(n) = &callee {
                        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" || n.starts_with("llvm.dbg") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.donothing") { continue }
                    }
                    c.expect("(");
                    let mut args: Vec<Opnd> = vec![];
                    let mut tys = vec![];
                    if !c.eat(")") {
                        loop {
                            let t = c.ty();
                            c.attrs();
                            args.extend(fb.opnds(&mut c, &t));
                            tys.push(t);
                            if c.eat(")") { break }
                            c.expect(",");
                        }
                    }
                    let d = match (&dst, &rt) { (Some(n), t) => fb.reg(n, t), _ => NOREG };
                    match callee {
                        Err(n) => { let p = fb.reg(&n, &Ty::Ptr); fb.emit(Inst::CallInd { p, args: args.into(), d }) }
                        Ok(n) => {
                            if let Some(r) = n.strip_prefix("llvm.") {
                                let w = tys.first().map(|t| if matches!(t, Ty::Int(_) | Ty::Ptr | Ty::Double) { width(t) } else { 0 }).unwrap_or(0);
                                let b2 = |fb: &mut FB, o: Bin| fb.emit(Inst::Bin { op: o, w, d, a: args[0], b: args[1] });
                                let base = r.split('.').next().unwrap();
                                if r.contains(".with.overflow.") {
                                    let (o1, o2) = match base { "uadd" => (Bin::Add, Bin::UAddO), "usub" => (Bin::Sub, Bin::USubO), "umul" => (Bin::Mul, Bin::UMulO), "sadd" => (Bin::Add, Bin::SAddO), "ssub" => (Bin::Sub, Bin::SSubO), "smul" => (Bin::Mul, Bin::SMulO), _ => panic!() };
                                    // dst may alias no argument (SSA)
                                    fb.emit(Inst::Bin { op: o1, w, d, a: args[0], b: args[1] });
                                    fb.emit(Inst::Bin { op: o2, w, d: d + 1, a: args[0], b: args[1] });
                                } else if r.starts_with("uadd.sat") { b2(&mut fb, Bin::UAddSat) }
                                else if r.starts_with("usub.sat") { b2(&mut fb, Bin::USubSat) }
                                else { match base {
                                    "umin" => b2(&mut fb, Bin::UMin), "umax" => b2(&mut fb, Bin::UMax), "smin" => b2(&mut fb, Bin::SMin), "smax" => b2(&mut fb, Bin::SMax),
                                    "ucmp" | "scmp" => {
                                        let sg = base == "scmp";
                                        let (g, l, gz, lz) = (fb.tmp(), fb.tmp(), fb.tmp(), fb.tmp());
                                        let to = width(&rt);
                                        fb.emit(Inst::Bin { op: if sg { Bin::Sgt } else { Bin::Ugt }, w, d: g, a: args[0], b: args[1] });
                                        fb.emit(Inst::Bin { op: if sg { Bin::Slt } else { Bin::Ult }, w, d: l, a: args[0], b: args[1] });
                                        fb.emit(Inst::Un { op: Un::ZExt, w: 1, to, d: gz, a: g.into() });
                                        fb.emit(Inst::Un { op: Un::ZExt, w: 1, to, d: lz, a: l.into() });
                                        fb.emit(Inst::Bin { op: Bin::Sub, w: to, d, a: gz.into(), b: lz.into() });
                                    }
                                    "fabs" => { let k = fb.cst(i64::MAX as u64); fb.emit(Inst::Bin { op: Bin::And, w: 64, d, a: args[0], b: k }) }
                                    "ctpop" => fb.emit(Inst::Un { op: Un::Ctpop, w, to: w, d, a: args[0] }),
                                    "ctlz" => fb.emit(Inst::Un { op: Un::Ctlz, w, to: w, d, a: args[0] }),
                                    "cttz" => fb.emit(Inst::Un { op: Un::Cttz, w, to: w, d, a: args[0] }),
                                    "bswap" => fb.emit(Inst::Un { op: Un::BSwap, w, to: w, d, a: args[0] }),
                                    "bitreverse" => fb.emit(Inst::Un { op: Un::BitRev, w, to: w, d, a: args[0] }),
                                    "abs" => fb.emit(Inst::Un { op: Un::Abs, w, to: w, d, a: args[0] }),
                                    "expect" | "ssa" => fb.emit(Inst::Mov { d, a: args[0] }),
                                    "fshl" => fb.emit(Inst::Fshl { w, d, a: args[0], b: args[1], c: args[2], right: false }),
                                    "fshr" => fb.emit(Inst::Fshl { w, d, a: args[0], b: args[1], c: args[2], right: true }),
                                    // "is.constant" may legally be false always
                                    "is" => { let z = fb.cst(0); fb.emit(Inst::Mov { d, a: z }) }
                                    "memcpy" | "memmove" => fb.emit(Inst::Intr { f: Intr::Memcpy, args: args[..3].into(), d: NOREG }),
                                    "memset" => fb.emit(Inst::Intr { f: Intr::Memset, args: args[..3].into(), d: NOREG }),
                                    "trap" | "debugtrap" | "ubsantrap" => fb.emit(Inst::Intr { f: Intr::Trap, args: [].into(), d: NOREG }),
                                    "fptoui" => fb.emit(Inst::Un { op: Un::FpToUiSat, w, to: width(&rt), d, a: args[0] }),
                                    _ => panic!("unsupported intrinsic {} in {}", n, name),
                                } }
                            } else {
                                let intr = match n.as_str() {
                                    "memcpy" | "memmove" => Some(Intr::Memcpy),
                                    "memset" => Some(Intr::Memset),
                                    "memcmp" | "bcmp" => Some(Intr::Memcmp),
                                    "v_alloc" => Some(Intr::VAlloc),
                                    "v_panic" => Some(Intr::VPanic),
                                    "v_input" => Some(Intr::VInput),
                                    "v_param" => Some(Intr::VParam),
                                    "v_fail" => Some(Intr::VFail),
                                    "v_trace" => Some(Intr::VTrace),
                                    "v_cover" => Some(Intr::VCover),
                                    "v_note" => Some(Intr::VNote),
                                    "v_assume" => Some(Intr::VAssume),
                                    _ => None,
                                };
                                match intr {
                                    Some(f) => fb.emit(Inst::Intr { f, args: args.into(), d }),
                                    None => fb.emit(Inst::Call { f: names[&n], args: args.into(), d }),
                                }
                            }
                        }
                    }
                }
                _ => panic!("unsupported instruction {:?} in {}", s, name),
            }
        }
    }
    for e in edges.iter_mut() { e.target = block_start[e.block as usize] }
    Func {
        name: name.to_string(), defined: true, nregs: fb.nregs, nparams, consts: fb.consts, code: fb.code, dbg: fb.dbg, edges, block_base: 0, block_start,
        ret_leaves: if rty == Ty::Void { 0 } else { rty.nleaves() }, special: 0,
        ret_bits: if rty == Ty::Void { vec![] } else { rty.leaves().into_iter().map(|x| x.1).collect() },
        sret: match lines[at].find("sret(") { Some(p) => { let mut c = Cur::new(&lines[at][p + 5..]); c.ty().size() } None => 0 },
    }
}
