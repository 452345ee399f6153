//! Expansion by rustc: used when /repo cannot be built as an ordinary library.
#![cfg_attr(feature = "inproc", allow(dead_code))]
use crate::batch;
use crate::worker::Expanded;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::sync::atomic::{AtomicUsize, Ordering};

static SEQ: AtomicUsize = AtomicUsize::new(0);

/// One rustc process for all; those that fail are set aside and the rest tried again.
pub fn expand_all(bodies: &[String]) -> Vec<Expanded> {
    let mut out: Vec<Option<Expanded>> = bodies
        .iter()
        .map(|b| match b.parse::<TokenStream>() {
            Ok(_) => None,
            Err(e) => Some(Expanded::CompileError(format!("lex: {e}"))),
        })
        .collect();
    let todo: Vec<usize> = (0..bodies.len()).filter(|i| out[*i].is_none()).collect();
    group(bodies, todo, &mut out);
    out.into_iter().map(|e| e.expect("every body has an outcome")).collect()
}

fn group(bodies: &[String], mut live: Vec<usize>, out: &mut Vec<Option<Expanded>>) {
    while !live.is_empty() {
        let dir = batch::scratch();
        let src = dir.join(format!("o{}.rs", SEQ.fetch_add(1, Ordering::Relaxed)));
        let mut text = String::from("#![allow(warnings)]\n#![recursion_limit = \"1024\"]\n");
        let mut line = 3;
        let mut ranges = vec![];
        for i in &live {
            let m = format!("pub mod vmc_m{i} {{ ::parsegen::parser! {{\n{}\n}} }}\n", bodies[*i]);
            let c = m.matches('\n').count();
            ranges.push((line, line + c - 1));
            line += c;
            text.push_str(&m);
        }
        text.push_str("fn main() {}\n");
        std::fs::write(&src, text).unwrap();
        let mut c = std::process::Command::new("rustc");
        c.env("RUSTC_BOOTSTRAP", "1").env_remove("RUST_BACKTRACE");
        let mut args = batch::rustc_args(&src, &dir.join("none"), 0);
        let o = args.iter().position(|a| a == "-o").unwrap();
        args.drain(o..o + 2);
        c.args(args).arg("-Zunpretty=expanded");
        let r = batch::run_cmd(c, 70);
        let _ = std::fs::remove_file(&src);
        let mut bad: Vec<usize> = vec![];
        for e in batch::compile_errors(&r.stderr, &src.display().to_string()) {
            // what names stand for is not the expansion's concern
            if e.code {
                continue;
            }
            for l in &e.lines {
                if let Some(k) = ranges.iter().position(|(a, b)| a <= l && l <= b) {
                    let i = live[k];
                    if !bad.contains(&i) {
                        bad.push(i);
                        out[i] = Some(if e.panicked { Expanded::Panic(e.msg.clone()) } else { Expanded::CompileError(e.msg.clone()) });
                    }
                }
            }
        }
        if !bad.is_empty() {
            live.retain(|i| !bad.contains(i));
            continue;
        }
        if let Ok(ts) = r.stdout.parse::<TokenStream>() {
            let t: Vec<TokenTree> = ts.into_iter().collect();
            for w in t.windows(3) {
                if let (TokenTree::Ident(m), TokenTree::Ident(n), TokenTree::Group(g)) = (&w[0], &w[1], &w[2]) {
                    if m == "mod" && g.delimiter() == Delimiter::Brace {
                        if let Some(i) = n.to_string().strip_prefix("vmc_m").and_then(|s| s.parse::<usize>().ok()) {
                            out[i] = Some(Expanded::Tokens(g.stream()));
                        }
                    }
                }
            }
        }
        if live.iter().all(|i| out[*i].is_some()) {
            return;
        }
        if live.len() == 1 {
            let (v, m) = if r.timed_out {
                ("H", "expansion does not terminate within 70 s".to_owned())
            } else {
                ("C", format!("rustc: code {:?} signal {:?} {}", r.code, r.signal, r.stderr.chars().take(300).collect::<String>()))
            };
            out[live[0]] = Some(Expanded::Dead(v, m));
            return;
        }
        if r.timed_out {
            // the master asks again, one at a time
            std::process::exit(1);
        }
        let b = live.split_off(live.len() / 2);
        group(bodies, live, out);
        return group(bodies, b, out);
    }
}
