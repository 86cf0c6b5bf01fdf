//! Runs a harness entry natively on concrete inputs: confirms counterexamples, and confirms that
//! the symbolic executor's runs are the machine's runs.
//!
//! Lines on stdin: id, entry, parameters (;), input (hex), mode (s: keep slots, t: spell them
//! out). One line of JSON per input on stdout.
use std::cell::RefCell;
use std::io::{BufRead, Write};
#[allow(unused_imports)]
use harness::*;

#[derive(Default)]
struct St {
    input: Vec<u8>,
    params: Vec<usize>,
    fails: Vec<(usize, usize)>,
    trace: Vec<usize>,
}
thread_local!(static S: RefCell<St> = RefCell::default());

#[no_mangle]
unsafe extern "C" fn v_input(p: *mut u8) -> usize {
    S.with(|s| {
        let s = s.borrow();
        assert!(s.input.len() < harness::rt::MAX_INPUT);
        std::ptr::copy_nonoverlapping(s.input.as_ptr(), p, s.input.len());
        s.input.len()
    })
}
#[no_mangle]
extern "C" fn v_param(i: usize) -> usize {
    S.with(|s| s.borrow().params.get(i).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn v_fail(c: usize, a: usize, _: usize) {
    S.with(|s| s.borrow_mut().fails.push((c, a)))
}
#[no_mangle]
extern "C" fn v_trace(x: usize) {
    S.with(|s| s.borrow_mut().trace.push(x))
}
#[no_mangle]
extern "C" fn v_cover(_: usize) {}
#[no_mangle]
extern "C" fn v_note(_: usize) {}
#[no_mangle]
extern "C" fn v_assume(x: usize) {
    if x == 0 {
        std::panic::panic_any("assume")
    }
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
/// Spell the slots out as the text they stand for, with blanks so that they stay apart.
fn spell(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 1 && i + 2 < b.len() {
            let t = sql_parse::verif::slot_text(((b[i + 1] & 63) as usize) << 6 | (b[i + 2] & 63) as usize);
            o.push(b' ');
            o.extend_from_slice(t.as_bytes());
            o.push(b' ');
            i += 3
        } else {
            o.push(b[i]);
            i += 1
        }
    }
    o
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // one thread for all runs; a run that does not end takes the process down
    let (jtx, jrx) = std::sync::mpsc::channel::<(String, Vec<u8>, Vec<usize>)>();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for (entry, input, params) in jrx {
                S.with(|s| *s.borrow_mut() = St { input, params, ..Default::default() });
                let r = std::panic::catch_unwind(|| match entry.as_str() {
                    "main_stmt" => entries::main_stmt(),
                    "main_two" => entries::main_two(),
                    "main_options" => entries::main_options(),
                    "main_parts" => entries::main_parts(),
                    "main_delimited" => entries::main_delimited(),
                    "main_report" => entries::main_report(),
                    "main_issues" => entries::main_issues(),
                    "main_history" => entries::main_history(),
                    "main_locate" => entries::main_locate(),
                    "main_contain" => entries::main_contain(),
                    "main_expected" => entries::main_expected(),
                    "main_single" => entries::main_single(),
                    "main_place" => entries::main_place(),
                    "main_setters" => entries::main_setters(),
                    "main_ident" => entries::main_ident(),
                    "main_span" => entries::main_span(),
                    x => panic!("entry {}", x),
                });
                let msg = match r {
                    Ok(()) => "ok".to_string(),
                    Err(e) => {
                        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                        if m == "assume" { m } else { format!("panic: {}", m) }
                    }
                };
                let s = S.with(|s| std::mem::take(&mut *s.borrow_mut()));
                let _ = tx.send((msg, s.fails, s.trace));
            }
        })
        .unwrap();
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split('\t').collect();
        let raw = unhex(f[3]);
        let input = if f[4] == "t" { spell(&raw) } else { raw };
        let text = String::from_utf8_lossy(&input).into_owned();
        let entry = f[1].to_string();
        let params: Vec<usize> = f[2].split(';').filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap() as usize).collect();
        jtx.send((entry, input, params)).unwrap();
        // a run is at most a few milliseconds
        let (msg, fails, trace) = rx.recv_timeout(std::time::Duration::from_secs(10)).unwrap_or(("timeout".to_string(), vec![], vec![]));
        let hung = msg == "timeout";
        let fs: Vec<String> = fails.iter().map(|(c, a)| format!("[{},{}]", c, a)).collect();
        let ts: Vec<String> = trace.iter().map(|x| x.to_string()).collect();
        writeln!(out.lock(), "{{\"id\":{},\"end\":{},\"fails\":[{}],\"trace\":[{}],\"text\":{}}}", json(f[0]), json(&msg), fs.join(","), ts.join(","), json(&text)).unwrap();
        out.lock().flush().unwrap();
        if hung {
            // the thread cannot be stopped; leave the rest to a fresh process
            writeln!(out.lock(), "{{\"id\":\"\",\"end\":\"restart\"}}").unwrap();
            std::process::exit(3)
        }
    }
}
