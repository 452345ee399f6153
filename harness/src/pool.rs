//! Runs tasks in worker processes.
use crate::render::Pres;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const JOBS: usize = 8;

#[derive(Clone, Debug)]
pub struct Answer {
    /// 'A' accepted, 'P' panic, 'E' compile error, 'C' crash, 'H' hang
    pub verdict: char,
    /// sr conflicts (mode p), digest (mode h)
    pub sr: u64,
    pub rr: u64,
    pub rstates: u64,
    pub pairs: u64,
    pub trans: u64,
    pub status: String,
    pub msg: String,
}

impl Answer {
    fn parse(l: &str) -> Answer {
        let f: Vec<&str> = l.split('\t').collect();
        Answer {
            verdict: f[0].chars().next().unwrap(),
            sr: f[1].parse().unwrap(),
            rr: f[2].parse().unwrap(),
            rstates: f[3].parse().unwrap(),
            pairs: f[4].parse().unwrap(),
            trans: f[5].parse().unwrap(),
            status: f[6].to_owned(),
            msg: f[7].to_owned(),
        }
    }
    fn dead(v: char, m: String) -> Answer {
        Answer { verdict: v, sr: 0, rr: 0, rstates: 0, pairs: 0, trans: 0, status: "-".into(), msg: m }
    }
    pub fn accepted(&self) -> bool {
        self.verdict == 'A'
    }
}

pub fn task_line(mode: &str, p: &Pres) -> String {
    format!(
        "{mode}\t{}\t{}\t{}\t{}",
        p.g,
        p.t.join("\u{1f}"),
        p.entry_names().join("\u{1f}"),
        p.body().replace('\n', "\u{1e}")
    )
}

pub fn raw_line(mode: &str, body: &str) -> String {
    assert!(!body.contains('\t'), "tabs separate fields");
    format!("{mode}\t1 1 0\t\t\t{}", body.replace('\n', "\u{1e}"))
}

struct Worker {
    child: Child,
    out: Option<BufReader<std::process::ChildStdout>>,
    started: Arc<Mutex<Option<Instant>>>,
    killed: Arc<AtomicBool>,
}

/// Seconds without an answer after which an expansion counts as hanging.
const HANG: u64 = 90;

impl Worker {
    fn new(env: &[(String, String)], cwd: Option<&str>) -> Worker {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("worker").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        for (k, v) in env {
            c.env(k, v);
        }
        if let Some(d) = cwd {
            c.current_dir(d);
        }
        let mut child = c.spawn().expect("spawn worker");
        let out = Some(BufReader::new(child.stdout.take().unwrap()));
        let started: Arc<Mutex<Option<Instant>>> = Arc::new(Mutex::new(None));
        let killed = Arc::new(AtomicBool::new(false));
        let (s2, k2, pid) = (started.clone(), killed.clone(), child.id());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if Arc::strong_count(&s2) == 1 {
                return;
            }
            let hung = s2.lock().unwrap().map_or(false, |t| t.elapsed().as_secs() > HANG);
            if hung {
                k2.store(true, Ordering::SeqCst);
                let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                return;
            }
        });
        Worker { child, out, started, killed }
    }

    /// Answers in order; fewer than asked if the worker died.
    fn ask(&mut self, lines: &[String]) -> Vec<Answer> {
        *self.started.lock().unwrap() = Some(Instant::now());
        let mut stdin = self.child.stdin.take().unwrap();
        let text: String = lines.iter().flat_map(|l| [l.as_str(), "\n"]).chain(["flush\n"]).collect();
        let mut got = vec![];
        let out = self.out.as_mut().unwrap();
        let started = &self.started;
        std::thread::scope(|sc| {
            sc.spawn(|| {
                let _ = stdin.write_all(text.as_bytes());
                let _ = stdin.flush();
            });
            let mut line = String::new();
            while got.len() < lines.len() {
                line.clear();
                match out.read_line(&mut line) {
                    Ok(n) if n > 0 && line.ends_with('\n') => {
                        got.push(Answer::parse(line.trim_end_matches('\n')));
                        *started.lock().unwrap() = Some(Instant::now());
                    }
                    _ => break,
                }
            }
        });
        *self.started.lock().unwrap() = None;
        self.child.stdin = Some(stdin);
        got
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn ask_all(w: &mut Option<Worker>, lines: &[String], env: &[(String, String)], cwd: Option<&str>) -> Vec<Answer> {
    let wk = w.get_or_insert_with(|| Worker::new(env, cwd));
    let mut got = wk.ask(lines);
    if got.len() == lines.len() {
        return got;
    }
    // the worker died: one at a time, in a fresh worker
    *w = None;
    while got.len() < lines.len() {
        let wk = w.get_or_insert_with(|| Worker::new(env, cwd));
        let a = wk.ask(&lines[got.len()..got.len() + 1]);
        match a.into_iter().next() {
            Some(a) => got.push(a),
            None => {
                let hung = wk.killed.load(Ordering::SeqCst);
                let st = wk.child.wait();
                got.push(if hung {
                    Answer::dead('H', format!("expansion does not terminate within {HANG} s"))
                } else {
                    Answer::dead('C', format!("expansion kills the process: {st:?}"))
                });
                *w = None;
            }
        }
    }
    got
}

/// A sequence of expansions in one fresh process.
pub fn sequence(lines: &[String], env: &[(String, String)], cwd: Option<&str>) -> Vec<Answer> {
    let mut w = None;
    let mut wk = Worker::new(env, cwd);
    let mut got = wk.ask(lines);
    if got.len() < lines.len() {
        // after this history, expansion killed the process; the rest starts over
        let hung = wk.killed.load(Ordering::SeqCst);
        let st = wk.child.wait();
        let n = got.len();
        got.push(if hung {
            Answer::dead('H', format!("expansion does not terminate within {HANG} s"))
        } else {
            Answer::dead('C', format!("expansion kills the process: {st:?}"))
        });
        got.extend(ask_all(&mut w, &lines[n + 1..], env, cwd));
    }
    got
}

/// Runs everything `produce` sends (payload, task line), in parallel, and calls `consume` on the
/// answers (any order). `produce` returns early if `stop` becomes true.
pub fn run<T: Send>(
    produce: impl FnOnce(&mut dyn FnMut(T, String) -> bool) + Send,
    consume: impl Fn(T, Answer) + Sync,
    stop: &AtomicBool,
) -> u64 {
    let (tx, rx) = std::sync::mpsc::sync_channel::<Vec<(T, String)>>(64);
    let rx = Mutex::new(rx);
    let n = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..JOBS {
            sc.spawn(|| {
                let mut w: Option<Worker> = None;
                loop {
                    let chunk = rx.lock().unwrap().recv();
                    let Ok(chunk) = chunk else { break };
                    if crate::batch::time_up() {
                        stop.store(true, Ordering::Relaxed);
                    }
                    if stop.load(Ordering::Relaxed) {
                        continue;
                    }
                    let (ts, lines): (Vec<T>, Vec<String>) = chunk.into_iter().unzip();
                    let answers = ask_all(&mut w, &lines, &[], None);
                    n.fetch_add(answers.len() as u64, Ordering::Relaxed);
                    for (t, a) in ts.into_iter().zip(answers) {
                        consume(t, a);
                    }
                }
            });
        }
        let mut buf: Vec<(T, String)> = vec![];
        let mut bytes = 0;
        {
            let mut send = |t: T, l: String| -> bool {
                bytes += l.len();
                buf.push((t, l));
                if buf.len() >= 128 || bytes > 60_000 {
                    bytes = 0;
                    let _ = tx.send(std::mem::take(&mut buf));
                }
                !stop.load(Ordering::Relaxed)
            };
            produce(&mut send);
        }
        if !buf.is_empty() {
            let _ = tx.send(buf);
        }
        drop(tx);
    });
    n.into_inner()
}
