//! symex: bounded symbolic execution of LLVM IR with an SMT back end.
//!
//!   symex run IR JOBS OUT [--threads N] [--deadline SECS] [--z3log FILE]
//!   symex slots IR OUT
mod exec;
mod expr;
mod ll;
mod z3;
use exec::*;
use ll::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect() }
fn ranges(s: &str, radix: u32) -> Vec<u64> {
    let mut v = vec![];
    for p in s.split(',') {
        match p.split_once('-') {
            Some((a, b)) => { let (a, b) = (u64::from_str_radix(a, radix).expect("range"), u64::from_str_radix(b, radix).expect("range")); v.extend(a..=b) }
            None => v.push(u64::from_str_radix(p, radix).expect("range")),
        }
    }
    v
}

struct Job { id: String, entry: String, params: String, input: String, max_paths: u64, steps: u64, secs: u64 }

struct Built { vars: Vec<Vec<u64>> }

/// input elements: L<hex> literal bytes; B<ranges hex> symbolic byte; S<ranges dec> token slot;
/// O<lits> symbolic choice is expressed with S; R<k> repeats the bytes of variable k.
fn build(w: &mut Worker, j: &Job) -> Built {
    let mut vars: Vec<Vec<u64>> = vec![];
    let mut bytes: Vec<Vec<InByte>> = vec![];
    for p in j.params.split(';').filter(|x| !x.is_empty()) {
        if let Some(r) = p.strip_prefix('?') {
            let d = ranges(r, 10);
            let v = w.cx.new_var("p", d.len());
            let t = w.cx.tbl(v, 64, d.clone());
            vars.push(d);
            bytes.push(vec![]);
            w.params.push(t);
        } else { w.params.push(expr::V::c(p.parse().expect("param"))) }
    }
    for e in j.input.split(' ').filter(|x| !x.is_empty()) {
        let r = &e[1..];
        match e.as_bytes()[0] {
            b'L' => for b in unhex(r) { w.input.push(InByte::C(b)) },
            b'B' => {
                let d = ranges(r, 16);
                let v = w.cx.new_var("b", d.len());
                let t = w.cx.tbl(v, 8, d.clone());
                vars.push(d);
                bytes.push(vec![byte(t)]);
                w.input.push(byte(t));
            }
            b'S' => {
                let d = ranges(r, 10);
                let v = w.cx.new_var("s", d.len());
                let hi = w.cx.tbl(v, 8, d.iter().map(|x| 0x40 | x >> 6).collect());
                let lo = w.cx.tbl(v, 8, d.iter().map(|x| 0x40 | x & 63).collect());
                vars.push(d);
                let bs = vec![InByte::C(1), byte(hi), byte(lo)];
                w.input.extend(bs.iter().cloned());
                bytes.push(bs);
            }
            // one of several texts of the same length
            b'C' => {
                let alts: Vec<Vec<u8>> = r.split(',').map(unhex).collect();
                let v = w.cx.new_var("c", alts.len());
                vars.push((0..alts.len() as u64).collect());
                let bs = texts(w, v, &alts);
                w.input.extend(bs.iter().cloned());
                bytes.push(bs);
            }
            // one of several texts, chosen by an earlier variable
            b'D' => {
                let (k, t) = r.split_once(':').expect("D");
                let k: usize = k.parse().expect("D");
                let alts: Vec<Vec<u8>> = t.split(',').map(unhex).collect();
                assert_eq!(alts.len(), vars[k].len());
                let bs = texts(w, k as u32, &alts);
                w.input.extend(bs);
            }
            // the slot of an earlier variable, moved
            b'T' => {
                let (k, o) = r.split_once(':').expect("T");
                let (k, o): (usize, u64) = (k.parse().expect("T"), o.parse().expect("T"));
                let d: Vec<u64> = vars[k].iter().map(|x| x + o).collect();
                let hi = w.cx.tbl(k as u32, 8, d.iter().map(|x| 0x40 | x >> 6).collect());
                let lo = w.cx.tbl(k as u32, 8, d.iter().map(|x| 0x40 | x & 63).collect());
                w.input.extend([InByte::C(1), byte(hi), byte(lo)]);
            }
            b'R' => { let k: usize = r.parse().expect("R"); let b = bytes[k].clone(); w.input.extend(b) }
            _ => panic!("job element {:?}", e),
        }
    }
    Built { vars }
}
fn byte(v: expr::V) -> InByte { if v.s == 0 { InByte::C(v.c as u8) } else { InByte::V(v) } }
fn texts(w: &mut Worker, v: u32, alts: &[Vec<u8>]) -> Vec<InByte> {
    let n = alts[0].len();
    assert!(alts.iter().all(|a| a.len() == n), "texts of different length");
    (0..n).map(|i| byte(w.cx.tbl(v, 8, alts.iter().map(|a| a[i] as u64).collect()))).collect()
}
fn render(w: &Worker, m: &[usize]) -> (Vec<u8>, Vec<u64>) {
    let b = w.input.iter().map(|b| match b { InByte::C(c) => *c, InByte::V(v) => w.cx.evalv(*v, m) as u8 }).collect();
    let p = w.params.iter().map(|v| w.cx.evalv(*v, m)).collect();
    (b, p)
}

fn nums(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[2]).expect("read IR");
    let m = load(&text, &Options { special: &[("sqlparse_verif_token", SP_MERGE), ("slotmerge", SP_MERGE), ("5alloc3fmt6format12format_inner", SP_FMT), ("alloc::fmt::format::format_inner", SP_FMT)] });
    drop(text);
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    match a[1].as_str() {
        "slots" => {
            let mut w = Worker::new(&m);
            let n = w.call_concrete(m.fn_by_name["h_slots"], &[])[0];
            let mut out = String::from("[");
            for i in 0..n {
                let p = w.call_concrete(m.fn_by_name["h_slot_ptr"], &[i])[0];
                let l = w.call_concrete(m.fn_by_name["h_slot_len"], &[i])[0];
                if i > 0 { out.push(',') }
                out.push_str(&esc(std::str::from_utf8(&w.read_image(p, l as usize)).unwrap()));
            }
            out.push(']');
            std::fs::write(&a[3], out).unwrap();
        }
        "run" => {
            let threads: usize = opt("--threads").map(|x| x.parse().unwrap()).unwrap_or(8);
            let deadline = t0 + Duration::from_secs(opt("--deadline").map(|x| x.parse().unwrap()).unwrap_or(600));
            let samples: usize = opt("--samples").map(|x| x.parse().unwrap()).unwrap_or(2);
            let terms: usize = opt("--terms").map(|x| x.parse().unwrap()).unwrap_or(4);
            let jobs: Vec<Job> = std::fs::read_to_string(&a[3]).expect("jobs").lines().filter(|l| !l.is_empty()).map(|l| {
                let f: Vec<&str> = l.split('\t').collect();
                assert_eq!(f.len(), 7, "job line {:?}", l);
                Job { id: f[0].into(), entry: f[1].into(), params: f[2].into(), max_paths: f[3].parse().unwrap(), steps: f[4].parse().unwrap(), secs: f[5].parse().unwrap(), input: f[6].into() }
            }).collect();
            let load_s = t0.elapsed().as_secs_f64();
            let next = AtomicUsize::new(0);
            let results: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
            let cov: Mutex<Vec<u64>> = Mutex::new(vec![0; (m.nblocks as usize + 63) / 64]);
            let panicked: Mutex<Vec<String>> = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for _ in 0..threads {
                    std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || {
                        let mut w = Worker::new(&m);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= jobs.len() { break }
                            let j = &jobs[i];
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                w.begin_job();
                                w.real_fmt = j.entry == "main_report" || j.entry == "main_expected" || j.entry == "main_locate";
                                let tj = Instant::now();
                                let b = build(&mut w, j);
                                let lim = Limits { path_steps: j.steps, max_paths: j.max_paths, deadline: deadline.min(tj + Duration::from_secs(j.secs)), samples };
                                let entry = *m.fn_by_name.get(&j.entry).unwrap_or_else(|| panic!("no entry {}", j.entry));
                                w.run_job(entry, &lim);
                                w.check_terms(terms);
                                let o = &w.out;
                                let mut s = String::new();
                                let _ = write!(s, "{{\"id\":{},\"paths\":{},\"forks\":{},\"steps\":{},\"max_path_steps\":{},\"covers\":{},\"queries\":{},\"solver_s\":{:.4},\"sat\":{},\"unsat\":{},\"proved\":{},\"term_obl\":{},\"decisions\":{},\"secs\":{:.3},\"vars\":{}",
                                    esc(&j.id), o.paths, o.forks, o.steps, o.max_path_steps, o.covers, o.z3_queries, o.z3_time, o.z3_sat, o.z3_unsat, o.coverage_proved, o.term_obl, o.fin_decisions, tj.elapsed().as_secs_f64(), nums(&b.vars.iter().map(|v| v.len() as u64).collect::<Vec<_>>()));
                                let _ = write!(s, ",\"incomplete\":{}", o.incomplete.as_ref().map(|x| esc(x)).unwrap_or("null".into()));
                                let _ = write!(s, ",\"errors\":[{}]", o.errors.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
                                s.push_str(",\"viol\":[");
                                for (k, v) in o.viol.values().enumerate() {
                                    let (inp, par) = render(&w, &v.model);
                                    let _ = write!(s, "{}{{\"kind\":{},\"code\":{},\"detail\":{},\"input\":\"{}\",\"params\":{},\"stack\":{},\"count\":{}}}", if k > 0 { "," } else { "" }, esc(&v.kind), v.code, v.detail, hex(&inp), nums(&par), esc(&v.stack), v.count);
                                }
                                s.push_str("],\"samples\":[");
                                for (k, (md, tr)) in o.samples.iter().enumerate() {
                                    let (inp, par) = render(&w, md);
                                    let _ = write!(s, "{}{{\"input\":\"{}\",\"params\":{},\"trace\":{}}}", if k > 0 { "," } else { "" }, hex(&inp), nums(&par), nums(tr));
                                }
                                s.push_str("]}");
                                s
                            }));
                            match r {
                                Ok(s) => { results.lock().unwrap().insert(i, s); }
                                Err(e) => {
                                    let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                                    panicked.lock().unwrap().push(format!("{}: {}", j.id, msg));
                                    w = Worker::new(&m);
                                }
                            }
                            if w.merge_big() { let c = std::mem::take(&mut w.cov); let mut g = cov.lock().unwrap(); for (x, y) in g.iter_mut().zip(&c) { *x |= *y } w = Worker::new(&m); }
                        }
                        let mut g = cov.lock().unwrap();
                        for (x, y) in g.iter_mut().zip(&w.cov) { *x |= *y }
                    }).unwrap();
                }
            });
            let cov = cov.into_inner().unwrap();
            // coverage of functions and source lines
            let mut lines: BTreeMap<String, (BTreeSet<u32>, BTreeSet<u32>)> = BTreeMap::new();
            let mut fns: Vec<(String, u64, u64)> = vec![];
            for f in &m.funcs {
                if !f.defined { continue }
                let mut seen = 0;
                for (b, st) in f.block_start.iter().enumerate() {
                    let g = f.block_base as usize + b;
                    let hit = cov[g / 64] >> (g % 64) & 1 != 0;
                    if hit { seen += 1 }
                    let e = f.block_start.get(b + 1).copied().unwrap_or(f.code.len() as u32);
                    for pc in *st..e {
                        if let Some((fi, ln)) = m.dbg_loc.get(&f.dbg[pc as usize]) {
                            let file = &m.files[*fi as usize];
                            if *ln == 0 { continue }
                            let x = lines.entry(file.clone()).or_default();
                            x.0.insert(*ln);
                            if hit { x.1.insert(*ln); }
                        }
                    }
                }
                if seen > 0 { fns.push((f.name.clone(), seen, f.block_start.len() as u64)) }
            }
            let res = results.into_inner().unwrap();
            let mut out = String::from("{\"jobs\":[\n");
            for (k, s) in res.values().enumerate() { if k > 0 { out.push_str(",\n") } out.push_str(s) }
            out.push_str("],\n\"crashed\":[");
            out.push_str(&panicked.into_inner().unwrap().iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
            let _ = write!(out, "],\n\"load_s\":{:.2},\"total_s\":{:.2},\"njobs\":{},\n\"functions\":[", load_s, t0.elapsed().as_secs_f64(), jobs.len());
            for (k, (n, s, t)) in fns.iter().enumerate() { let _ = write!(out, "{}[{},{},{}]", if k > 0 { "," } else { "" }, esc(n), s, t); }
            out.push_str("],\n\"lines\":{");
            for (k, (f, (all, hit))) in lines.iter().enumerate() {
                let l = |s: &BTreeSet<u32>| nums(&s.iter().map(|x| *x as u64).collect::<Vec<_>>());
                let _ = write!(out, "{}{}:[{},{}]", if k > 0 { "," } else { "" }, esc(f), l(all), l(hit));
            }
            out.push_str("}}\n");
            std::fs::write(&a[4], out).expect("write");
        }
        x => panic!("command {}", x),
    }
}
