//! `vmc worker`: expands macro inputs in process. One task per line on stdin, one answer per line on
//! stdout, in order, so that the master knows which task killed or hung a worker.
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};
use vref::grammar::Grammar;
use vref::lr1::{build, Lr1};

thread_local! {
    static LAST: std::cell::RefCell<Option<(String, Vec<Lr1>)>> = const { std::cell::RefCell::new(None) };
}

pub enum Expanded {
    Tokens(proc_macro2::TokenStream),
    CompileError(String),
    Panic(String),
    /// rustc dies ("C") or hangs ("H").
    #[allow(dead_code)]
    Dead(&'static str, String),
}

#[cfg(not(feature = "inproc"))]
pub fn expand(body: &str) -> Expanded {
    crate::outproc::expand_all(&[body.to_owned()]).remove(0)
}

#[cfg(feature = "inproc")]
pub fn expand(body: &str) -> Expanded {
    let ts: proc_macro2::TokenStream = match body.parse() {
        Ok(t) => t,
        Err(e) => return Expanded::CompileError(format!("lex: {e}")),
    };
    let r = std::panic::catch_unwind(|| parsegen_core::parser(ts));
    match r {
        Ok(ts) => {
            let mut it = ts.clone().into_iter();
            let mut head = String::new();
            for t in it.by_ref().take(8) {
                head.push_str(&t.to_string());
            }
            if head.contains("compile_error") {
                Expanded::CompileError(ts.to_string())
            } else {
                Expanded::Tokens(ts)
            }
        }
        Err(p) => Expanded::Panic(if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }),
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn one_line(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\t' || c == '\r' { ' ' } else { c }).take(300).collect()
}

fn body_of(line: &str) -> String {
    line.split('\t').nth(4).unwrap().replace('\u{1e}', "\n")
}

fn answer(line: &str) -> String {
    answer_for(line, expand(&body_of(line)))
}

/// Answer: fields separated by tabs.
fn answer_for(line: &str, e: Expanded) -> String {
    let mut f = line.split('\t');
    let mode = f.next().unwrap();
    let enc = f.next().unwrap();
    let names: Vec<String> = f.next().unwrap().split('\u{1f}').map(|s| s.to_owned()).collect();
    let entries: Vec<String> = f.next().unwrap().split('\u{1f}').map(|s| s.to_owned()).collect();
    let (verdict, msg) = match &e {
        Expanded::Tokens(_) => ("A", String::new()),
        Expanded::CompileError(m) => ("E", one_line(m)),
        Expanded::Panic(m) => ("P", one_line(m)),
        Expanded::Dead(v, m) => (*v, one_line(m)),
    };
    let mode = if mode.starts_with('h') { "h" } else { mode };
    match mode {
        // accept / reject only
        "x" => format!("{verdict}\t0\t0\t0\t0\t0\t-\t{msg}"),
        // digest of the complete outcome
        "h" => {
            let h = match &e {
                Expanded::Tokens(t) => hash(&t.to_string()),
                _ => hash(&msg),
            };
            format!("{verdict}\t{h}\t0\t0\t0\t0\t-\t{msg}")
        }
        // product with the reference
        "p" => {
            let g = Grammar::parse(enc);
            let lrs = LAST.with(|l| {
                let mut l = l.borrow_mut();
                if l.as_ref().map(|x| x.0.as_str()) != Some(enc) {
                    let v = g.entries.iter().map(|e| build(&g, *e)).collect();
                    *l = Some((enc.to_owned(), v));
                }
                l.take().unwrap()
            });
            let sr: usize = lrs.1.iter().map(|l| l.sr).sum();
            let rr: usize = lrs.1.iter().map(|l| l.rr).sum();
            let rstates: usize = lrs.1.iter().map(|l| l.states.len()).sum();
            let (mut pairs, mut trans) = (0, 0);
            let mut mism = vec![];
            let mut status = "-";
            if let (Expanded::Tokens(ts), 0) = (&e, rr) {
                match crate::tables::read(ts.clone()) {
                    None => status = "unrecognised",
                    Some(t) => {
                        status = "ok";
                        for (i, lr) in lrs.1.iter().enumerate() {
                            let Some(init) = t.entries.get(&entries[i]) else {
                                status = "unrecognised";
                                break;
                            };
                            let p = crate::product::explore(&g, lr, &t, *init, &names);
                            pairs += p.pairs;
                            trans += p.trans;
                            for (k, w) in p.mismatch.into_iter().take(3) {
                                let w: Vec<String> = w.iter().map(|t| format!("t{t}")).collect();
                                mism.push(format!("{k}@{i}: {}", w.join(" ")));
                            }
                        }
                    }
                }
            }
            if status == "ok" && !mism.is_empty() {
                status = "mismatch";
            }
            LAST.with(|l| *l.borrow_mut() = Some(lrs));
            let m = if mism.is_empty() { msg } else { mism.join("\u{1f}") };
            format!("{verdict}\t{sr}\t{rr}\t{rstates}\t{pairs}\t{trans}\t{status}\t{m}")
        }
        _ => panic!("mode {mode}"),
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    // a stack like rustc's
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut out = std::io::BufWriter::new(stdout.lock());
            // modes h0, h1, ...: on a thread of that number, which lives as long as the worker
            let mut threads: std::collections::HashMap<String, (std::sync::mpsc::Sender<String>, std::sync::mpsc::Receiver<String>)> = Default::default();
            let mut waiting: Vec<String> = vec![];
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if cfg!(not(feature = "inproc")) && line != "flush" {
                    waiting.push(line);
                    continue;
                }
                if line == "flush" {
                    let w = std::mem::take(&mut waiting);
                    if !w.is_empty() {
                        let bodies: Vec<String> = w.iter().map(|l| body_of(l)).collect();
                        for (l, e) in w.iter().zip(crate::outproc::expand_all(&bodies)) {
                            out.write_all(answer_for(l, e).as_bytes()).unwrap();
                            out.write_all(b"\n").unwrap();
                        }
                    }
                    out.flush().unwrap();
                    continue;
                }
                let mode = line.split('\t').next().unwrap();
                let a = if mode.len() == 2 && mode.starts_with('h') {
                    let (tx, rx) = threads.entry(mode.to_owned()).or_insert_with(|| {
                        let (tx, rx2) = std::sync::mpsc::channel::<String>();
                        let (tx2, rx) = std::sync::mpsc::channel::<String>();
                        std::thread::Builder::new()
                            .stack_size(8 << 20)
                            .spawn(move || {
                                for l in rx2 {
                                    let a = answer(&format!("h\t{}", l.split_once('\t').unwrap().1));
                                    let _ = tx2.send(a);
                                }
                            })
                            .unwrap();
                        (tx, rx)
                    });
                    tx.send(line).unwrap();
                    rx.recv().unwrap()
                } else {
                    answer(&line)
                };
                out.write_all(a.as_bytes()).unwrap();
                out.write_all(b"\n").unwrap();
            }
        })
        .unwrap();
    h.join().unwrap();
}
