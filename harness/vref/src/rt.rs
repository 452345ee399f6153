//! Runtime support linked into compiled parsers: token sources, instrumented values and actions, and
//! a per-thread recorder of everything observable.
use crate::lr1::{Ev, Item, Out, Pulled, Run, NODE0};
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fate {
    Live,
    /// Handed to a later action.
    Consumed,
    Dropped,
    /// Part of the result.
    Returned,
}

#[derive(Default)]
pub struct Rec {
    pub nonce: u32,
    pub evs: Vec<Ev>,
    pub fates: HashMap<u32, Fate>,
    pub errors: Vec<String>,
    next_node: u32,
    /// User-code events (source pulls and actions) so far.
    pub n_user: usize,
    pub max_user: usize,
    pub hint: u8,
    /// Panic at this user event.
    pub panic_at: Option<usize>,
    /// Called at every user event, before it takes effect.
    pub hook: Option<Rc<dyn Fn(usize)>>,
    pub record: bool,
    /// Lowest and highest stack address seen at user events.
    pub sp: Option<(usize, usize)>,
}

thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

pub const FAULT: &str = "injected fault";

static NONCE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);

/// Run `f` with a fresh recorder and return what it recorded. Nests.
pub fn with_rec<R>(mut rec: Rec, f: impl FnOnce() -> R) -> (R, Rec) {
    rec.nonce = NONCE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    rec.next_node = NODE0;
    let old = REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), rec));
    let ret = f();
    let rec = REC.with(|r| std::mem::replace(&mut *r.borrow_mut(), old));
    (ret, rec)
}

fn rec<R>(f: impl FnOnce(&mut Rec) -> R) -> R {
    REC.with(|r| f(&mut r.borrow_mut()))
}

#[inline(never)]
fn user_event() {
    let here = 0u8;
    let sp = std::hint::black_box(&here) as *const u8 as usize;
    let (n, hook) = rec(|r| {
        let (a, b) = r.sp.unwrap_or((sp, sp));
        r.sp = Some((a.min(sp), b.max(sp)));
        let n = r.n_user;
        r.n_user += 1;
        (n, r.hook.clone())
    });
    if let Some(h) = hook {
        h(n);
    }
    let (panic_now, runaway) =
        rec(|r| (r.panic_at == Some(n), r.max_user != 0 && n > r.max_user));
    if panic_now {
        std::panic::panic_any(FAULT);
    }
    if runaway {
        std::panic::panic_any("runaway: too many steps");
    }
}

/// A value with identity: payload of tokens and result of actions. Not Clone, not Copy.
#[derive(Debug)]
pub struct Val {
    id: u32,
    nonce: u32,
}

impl Val {
    fn new(id: u32) -> Val {
        rec(|r| {
            if r.fates.insert(id, Fate::Live).is_some() {
                r.errors.push(format!("value {id} created twice"));
            }
            Val { id, nonce: r.nonce }
        })
    }

    pub fn id(&self) -> u32 {
        self.id
    }

    fn end(&self, fate: Fate) {
        // `try_with`: values may outlive the thread-local during thread teardown
        let _ = REC.try_with(|r| {
            let r = &mut *r.borrow_mut();
            if r.nonce != self.nonce {
                r.errors.push(format!("value {} belongs to another parse", self.id));
                return;
            }
            match r.fates.insert(self.id, fate) {
                Some(Fate::Live) => {}
                old => r.errors.push(format!("value {} ended twice: {:?} then {:?}", self.id, old, fate)),
            }
        });
    }

    fn take(self, fate: Fate) -> u32 {
        self.end(fate);
        let id = self.id;
        std::mem::forget(self);
        id
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        self.end(Fate::Dropped);
    }
}

pub trait HasVal {
    fn v(self) -> Val;
}
impl HasVal for Val {
    fn v(self) -> Val {
        self
    }
}
/// Distinct result types for non-terminals.
#[derive(Debug)]
pub struct Ty<const K: usize>(pub Val);
impl<const K: usize> HasVal for Ty<K> {
    fn v(self) -> Val {
        self.0
    }
}
impl<const K: usize> Ty<K> {
    pub fn mk(prod: u32, kids: Vec<Val>) -> Self {
        Ty(act(prod, kids))
    }
}

/// The body of every instrumented semantic action.
pub fn act(prod: u32, kids: Vec<Val>) -> Val {
    user_event();
    let kids: Vec<u32> = kids.into_iter().map(|k| k.take(Fate::Consumed)).collect();
    let id = rec(|r| {
        let id = r.next_node;
        r.next_node += 1;
        if r.record {
            r.evs.push(Ev::Act { prod, kids, id });
        }
        id
    });
    Val::new(id)
}

pub trait FromRaw {
    fn from_raw(k: u32, v: Val) -> Self;
}

/// Token source over an item list. Not fused: asked again after the end it yields tokens.
pub struct It<'a, T> {
    items: &'a [Item],
    pos: u32,
    ended: bool,
    _t: PhantomData<T>,
}

impl<'a, T> It<'a, T> {
    pub fn new(items: &'a [Item]) -> Self {
        It { items, pos: 0, ended: false, _t: PhantomData }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LexErr(pub u32);

impl<'a, T: FromRaw> Iterator for It<'a, T> {
    type Item = Result<T, LexErr>;
    fn next(&mut self) -> Option<Self::Item> {
        user_event();
        let pos = self.pos;
        self.pos += 1;
        let log = |p: Pulled| rec(|r| if r.record { r.evs.push(Ev::Pull(p)) });
        if self.ended {
            log(Pulled::PastEnd);
            return Some(Ok(T::from_raw(0, Val::new(pos))));
        }
        match self.items.get(pos as usize) {
            Some(Item::Tok(t)) => {
                log(Pulled::Tok(*t));
                Some(Ok(T::from_raw(*t, Val::new(pos))))
            }
            Some(Item::Err(e)) => {
                self.ended = true;
                log(Pulled::Err(*e));
                Some(Err(LexErr(*e)))
            }
            None => {
                self.ended = true;
                log(Pulled::Eof);
                None
            }
        }
    }

    /// Honest, but of different precision.
    fn size_hint(&self) -> (usize, Option<usize>) {
        let endless = self.items.iter().any(|i| matches!(i, Item::Err(_)));
        let rest = self.items.len().saturating_sub(self.pos as usize);
        match rec(|r| r.hint) {
            _ if self.ended => (0, None),
            // after an error, tokens go on forever
            1..=3 if endless => (usize::MAX, None),
            1 => (rest, Some(rest)),
            2 => (0, Some(rest)),
            3 => (rest, None),
            // the caller knows that the parser need not look past `items`
            4 => (usize::MAX, None),
            _ => (0, None),
        }
    }
}

/// Outcome of a compiled parser, before conversion.
pub enum Raw {
    Ok(Val),
    Syntax(&'static str, &'static str),
    Lexer(LexErr),
}

/// entry ordinal (position in `Grammar::entries`), input
pub type RunFn = fn(usize, &[Item]) -> Raw;

#[macro_export]
macro_rules! conv {
    ($e:expr) => {
        match $e {
            Ok(v) => $crate::rt::Raw::Ok($crate::rt::HasVal::v(v)),
            Err(ParseError::LexerError(e)) => $crate::rt::Raw::Lexer(e),
            Err(ParseError::ParserError { found, expected }) => {
                $crate::rt::Raw::Syntax(found, expected)
            }
        }
    };
}

pub struct RealRun {
    pub run: Run,
    pub fates: HashMap<u32, Fate>,
    pub errors: Vec<String>,
    pub n_user: usize,
    pub stack_spread: usize,
}

impl RealRun {
    /// Violations of "handed over or dropped exactly once".
    pub fn ownership_errors(&self) -> Vec<String> {
        let mut e = self.errors.clone();
        let mut live: Vec<u32> =
            self.fates.iter().filter(|(_, f)| **f == Fate::Live).map(|(i, _)| *i).collect();
        live.sort();
        if !live.is_empty() {
            e.push(format!("still alive after parse: {live:?}"));
        }
        e
    }
}

pub struct Opts {
    pub panic_at: Option<usize>,
    pub hook: Option<Rc<dyn Fn(usize)>>,
    pub record: bool,
    pub max_user: usize,
    /// What the source says about its length, 0: nothing.
    pub hint: u8,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { panic_at: None, hook: None, record: true, max_user: 0, hint: 0 }
    }
}

/// One instrumented call of a compiled parser.
pub fn real_run(f: RunFn, entry: usize, input: &[Item], o: Opts) -> RealRun {
    let rec = Rec {
        panic_at: o.panic_at,
        hook: o.hook,
        record: o.record,
        hint: o.hint,
        // every step of an LR parser is a pull or an action; no grammar in the spaces explored
        // needs more than this many
        max_user: if o.max_user != 0 { o.max_user } else { 10000 + 1000 * (input.len() + 1) },
        ..Rec::default()
    };
    let (out, rec) = with_rec(rec, || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(entry, input)));
        match r {
            Ok(Raw::Ok(v)) => Out::Ok(v.take(Fate::Returned)),
            Ok(Raw::Syntax(f, e)) => Out::Syntax { found: f.to_owned(), expected: e.to_owned() },
            Ok(Raw::Lexer(e)) => Out::Lexer(e.0),
            Err(p) => Out::Panic(if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_owned()
            }),
        }
    });
    RealRun {
        run: Run { evs: rec.evs, out },
        fates: rec.fates,
        errors: rec.errors,
        n_user: rec.n_user,
        stack_spread: rec.sp.map_or(0, |(a, b)| b - a),
    }
}
