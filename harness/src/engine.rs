//! Running histories against the real maps, step by step against the table; minimisation.
use crate::item::*;
use crate::subj::*;
use crate::table::*;
use crate::val::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    /// the result is not an allowed one
    Result,
    /// the map shows other legal contents than allowed
    Contents,
    /// the map shows something no legal contents would show
    Illegal,
    /// a panic that is not the caller's
    Panic,
    /// items leaked, dropped twice, or stored twice
    Live,
    Hang,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub kind: Kind,
    pub step: usize,
    pub call: Call,
    pub msg: String,
    /// the state the map should have been in afterwards, if unique
    pub after: Option<usize>,
}

// ------------------------------------------------------------ progress, watchdog, journal

pub struct Slot {
    pub tick: AtomicU64,
    pub busy: AtomicBool,
    pub hist: Mutex<(String, Option<Cfg>, Vec<Call>, String)>,
}
pub static JOURNAL: Mutex<Option<std::fs::File>> = Mutex::new(None);
pub static JOURNALING: AtomicBool = AtomicBool::new(false);
/// The property is not about what the calls return or lead to: when a call leads to other legal
/// contents than specified, go on from those.
pub static LENIENT: AtomicBool = AtomicBool::new(false);
pub static ADOPTED: AtomicU64 = AtomicU64::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    pub static SLOT: std::cell::RefCell<Option<std::sync::Arc<Slot>>> = const { std::cell::RefCell::new(None) };
}
pub fn new_slot() -> std::sync::Arc<Slot> {
    let s = std::sync::Arc::new(Slot {
        tick: AtomicU64::new(0),
        busy: AtomicBool::new(false),
        hist: Mutex::new((String::new(), None, vec![], String::new())),
    });
    SLOT.with(|x| *x.borrow_mut() = Some(s.clone()));
    s
}
fn slot<R>(f: impl FnOnce(&Slot) -> R) -> Option<R> {
    SLOT.with(|s| s.borrow().as_ref().map(|s| f(s)))
}
pub fn journal(line: impl FnOnce() -> serde_json::Value) {
    if JOURNALING.load(Relaxed) {
        if let Some(f) = JOURNAL.lock().unwrap().as_mut() {
            let _ = writeln!(f, "{}", line());
        }
    }
}
pub fn begin_episode(map: &str, cfg: &Cfg, table: &str) {
    slot(|s| {
        *s.hist.lock().unwrap() = (map.to_string(), Some(*cfg), vec![], table.to_string());
    });
    journal(|| serde_json::json!({"begin": map, "cfg": cfg_json(cfg), "table": table}));
}
fn begin_step(c: &Call) {
    slot(|s| {
        s.hist.lock().unwrap().2.push(c.clone());
        s.tick.fetch_add(1, Relaxed);
        s.busy.store(true, Release);
    });
    journal(|| call_json(c));
}
pub fn begin_step_pub(c: &Call) {
    begin_step(c)
}
pub fn end_step() {
    slot(|s| {
        s.tick.fetch_add(1, Relaxed);
        s.busy.store(false, Release);
    });
    STEPS.fetch_add(1, Relaxed);
}
/// mark work outside of steps (observation drivers) for the watchdog
pub fn guarded<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    begin_step(&Call { op: format!("({what})"), a: Val::unit(), var: 0 });
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(panic_msg);
    end_step();
    r
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

// ------------------------------------------------------------ json

pub fn cfg_json(c: &Cfg) -> serde_json::Value {
    match c.hb {
        None => serde_json::json!({"hasher": "default", "capacity": c.cap}),
        Some(h) => serde_json::json!({"hasher": format!("{:?}", h.mode), "seed": h.seed, "capacity": c.cap, "plain": c.plain}),
    }
}
pub fn cfg_from(v: &serde_json::Value) -> Cfg {
    let name = v["hasher"].as_str().unwrap_or("default");
    let hb = MODES
        .iter()
        .chain(&[Mode::Given])
        .find(|m| format!("{m:?}") == name)
        .map(|m| Hb { mode: *m, seed: v["seed"].as_u64().unwrap_or(0) });
    Cfg { hb, cap: v["capacity"].as_u64().unwrap_or(0) as usize, plain: v["plain"].as_u64().unwrap_or(0) as u8 }
}
pub fn call_json(c: &Call) -> serde_json::Value {
    serde_json::json!({"op": c.op, "a": c.a.to_json(), "var": c.var})
}
pub fn call_from(v: &serde_json::Value) -> Call {
    Call { op: v["op"].as_str().unwrap().into(), a: Val::from_json(&v["a"]), var: v["var"].as_u64().unwrap_or(0) as u32 }
}
pub fn show(c: &Call) -> String {
    let args: Vec<String> = match &c.a {
        L(v) => v.iter().map(|x| x.to_string()).collect(),
        x => vec![x.to_string()],
    };
    format!("{}({})", c.op, args.join(", "))
}

// ------------------------------------------------------------ stepping

pub struct Stepper<'t, T: Subject> {
    pub tab: &'t Table,
    pub sub: Option<T>,
    pub st: usize,
    pub n: usize,
    pub live: bool,
    /// instances held by others (other maps, for forks)
    pub extra_live: usize,
}

pub enum Step {
    Done,
    /// the call is not in the table for this state
    NotInTable,
    Fail(Failure),
}

impl<'t, T: Subject> Stepper<'t, T> {
    pub fn new(tab: &'t Table, cfg: &Cfg, live: bool) -> Self {
        begin_episode(&tab.map, cfg, &tab.name);
        track_reset();
        if let Some(h) = cfg.hb {
            set_default_hb(h);
        }
        Stepper { tab, sub: Some(T::fresh(cfg)), st: 0, n: 0, live, extra_live: 0 }
    }
    fn fail(&mut self, kind: Kind, c: &Call, msg: String, after: Option<usize>) -> Step {
        // a broken map may not even survive being dropped
        std::mem::forget(self.sub.take());
        Step::Fail(Failure { kind, step: self.n, call: c.clone(), msg, after })
    }
    /// run the call on the real map and judge what it did
    pub fn step(&mut self, c: &Call) -> Step {
        let tab = self.tab;
        let Some(e) = tab.entry(self.st, c) else { return Step::NotInTable };
        if e.known {
            return Step::NotInTable;
        }
        self.n += 1;
        begin_step(c);
        let sub = self.sub.as_mut().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| sub.apply(c)));
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                end_step();
                let m = format!("{} panicked: {}", show(c), panic_msg(p));
                return self.fail(Kind::Panic, c, m, None);
            }
        };
        let sub = self.sub.as_ref().unwrap();
        let o = catch_unwind(AssertUnwindSafe(|| sub.observe(&tab.dom)));
        end_step();
        let o = match o {
            Ok(o) => o,
            Err(p) => {
                let m = format!("observing the map after {} panicked: {}", show(c), panic_msg(p));
                return self.fail(Kind::Panic, c, m, only_state(e));
            }
        };
        let good = e.outs.iter().find(|(er, es)| *er == r && tab.obs[*es] == o);
        match good {
            Some((_, s1)) => {
                self.st = *s1;
            }
            None if LENIENT.load(Relaxed) && tab.legal.contains_key(&o) => {
                self.st = tab.legal[&o];
                ADOPTED.fetch_add(1, Relaxed);
            }
            None => {
                let msg = format!(
                    "{} in state {} returned {} and then shows {}; allowed: {}",
                    show(c),
                    tab.states[self.st],
                    r,
                    show_obs(&o),
                    e.outs.iter().take(3).map(|(er, es)| format!("{} with contents {}", er, tab.states[*es])).collect::<Vec<_>>().join(" or ")
                );
                let kind = if !tab.legal.contains_key(&o) {
                    Kind::Illegal
                } else if e.outs.iter().any(|(_, es)| tab.obs[*es] == o) {
                    Kind::Result
                } else {
                    Kind::Contents
                };
                return self.fail(kind, c, msg, only_state(e));
            }
        }
        if self.live {
            if let Some(m) = self.live_problem() {
                let m = format!("after {}: {}", show(c), m);
                return self.fail(Kind::Live, c, m, Some(self.st));
            }
        }
        Step::Done
    }
    pub fn live_problem(&self) -> Option<String> {
        if track_has_errors() {
            return Some(track_errors().join("; "));
        }
        let stored = self.sub.as_ref().unwrap().stored();
        if stored.iter().any(|i| !is_alive(*i)) {
            return Some("a stored item was already dropped".into());
        }
        let mut x = stored.clone();
        x.sort();
        x.dedup();
        if x.len() != stored.len() {
            return Some("an item is stored twice".into());
        }
        if track_live() != stored.len() + self.extra_live {
            return Some(format!(
                "{} items are alive, but {} are stored (and none is held by the caller)",
                track_live() - self.extra_live.min(track_live()),
                stored.len()
            ));
        }
        None
    }
    /// drop the map and check that everything is released
    pub fn finish(mut self, last: &Call) -> Option<Failure> {
        begin_step(&Call { op: "(drop of the map)".into(), a: Val::unit(), var: 0 });
        let sub = self.sub.take();
        let r = catch_unwind(AssertUnwindSafe(|| drop(sub)));
        end_step();
        if let Err(p) = r {
            return Some(Failure { kind: Kind::Panic, step: self.n, call: last.clone(), msg: format!("dropping the map panicked: {}", panic_msg(p)), after: None });
        }
        if self.live && (track_has_errors() || track_live() != self.extra_live) {
            let msg = format!("after dropping the map {} items are still alive; {}", track_live() - self.extra_live.min(track_live()), track_errors().join("; "));
            return Some(Failure { kind: Kind::Live, step: self.n, call: last.clone(), msg, after: None });
        }
        None
    }
}
fn only_state(e: &Entry) -> Option<usize> {
    let s = e.outs[0].1;
    if e.outs.iter().all(|x| x.1 == s) {
        Some(s)
    } else {
        None
    }
}
pub fn show_obs(o: &Val) -> String {
    o.to_string()
}

#[derive(Debug)]
pub enum Outcome {
    Pass,
    Invalid,
    Fail(Failure),
}

/// run a whole history on a fresh map
pub fn run_history<T: Subject>(tab: &Table, cfg: &Cfg, calls: &[Call], live: bool) -> Outcome {
    let mut s = Stepper::<T>::new(tab, cfg, live);
    for c in calls {
        match s.step(c) {
            Step::Done => {}
            Step::NotInTable => return Outcome::Invalid,
            Step::Fail(f) => return Outcome::Fail(f),
        }
    }
    let last = calls.last().cloned().unwrap_or(Call { op: "new".into(), a: Val::unit(), var: 0 });
    match s.finish(&last) {
        Some(f) => Outcome::Fail(f),
        None => Outcome::Pass,
    }
}

#[macro_export]
macro_rules! dispatch {
    ($map:expr, $cfg:expr, $f:ident, $($arg:expr),*) => {
        match ($map, $cfg.hb.map_or(9, |_| $cfg.plain)) {
            ("CycleMap", 9) => $f::<$crate::subj::Cyc<hashbrown::hash_map::DefaultHashBuilder>>($($arg),*),
            ("CycleMap", 1) => $f::<$crate::subj::Cyc<$crate::item::Hx<$crate::item::Plain, $crate::item::Tracked>>>($($arg),*),
            ("CycleMap", 2) => $f::<$crate::subj::Cyc<$crate::item::Hx<$crate::item::Tracked, $crate::item::Plain>>>($($arg),*),
            ("CycleMap", 3) => $f::<$crate::subj::Cyc<$crate::item::Hx<$crate::item::Plain, $crate::item::Plain>>>($($arg),*),
            ("CycleMap", _) => $f::<$crate::subj::Cyc<$crate::item::Hx<$crate::item::Tracked, $crate::item::Tracked>>>($($arg),*),
            ("PartialCycleMap", 9) => $f::<$crate::subj::Par<hashbrown::hash_map::DefaultHashBuilder>>($($arg),*),
            ("PartialCycleMap", 1) => $f::<$crate::subj::Par<$crate::item::Hx<$crate::item::Plain, $crate::item::Tracked>>>($($arg),*),
            ("PartialCycleMap", 2) => $f::<$crate::subj::Par<$crate::item::Hx<$crate::item::Tracked, $crate::item::Plain>>>($($arg),*),
            ("PartialCycleMap", 3) => $f::<$crate::subj::Par<$crate::item::Hx<$crate::item::Plain, $crate::item::Plain>>>($($arg),*),
            ("PartialCycleMap", _) => $f::<$crate::subj::Par<$crate::item::Hx<$crate::item::Tracked, $crate::item::Tracked>>>($($arg),*),
            ("GroupMap", 9) => $f::<$crate::subj::Gro<hashbrown::hash_map::DefaultHashBuilder>>($($arg),*),
            ("GroupMap", 1) => $f::<$crate::subj::Gro<$crate::item::Hx<$crate::item::Plain, $crate::item::Tracked>>>($($arg),*),
            ("GroupMap", 2) => $f::<$crate::subj::Gro<$crate::item::Hx<$crate::item::Tracked, $crate::item::Plain>>>($($arg),*),
            ("GroupMap", 3) => $f::<$crate::subj::Gro<$crate::item::Hx<$crate::item::Plain, $crate::item::Plain>>>($($arg),*),
            ("GroupMap", _) => $f::<$crate::subj::Gro<$crate::item::Hx<$crate::item::Tracked, $crate::item::Tracked>>>($($arg),*),
            _ => panic!("unknown map"),
        }
    };
}

pub fn run_any(tab: &Table, cfg: &Cfg, calls: &[Call], live: bool) -> Outcome {
    dispatch!(tab.map.as_str(), cfg, run_history, tab, cfg, calls, live)
}

/// Remove calls while the history still fails (1-minimal).
pub fn minimise(tab: &Table, cfg: &Cfg, calls: &[Call], live: bool, original: &Failure) -> (Vec<Call>, Failure) {
    let mut cur = calls.to_vec();
    let mut fail = match run_any(tab, cfg, &cur, live) {
        Outcome::Fail(f) => f,
        // everything is seeded, except the default hash builder
        _ => return (cur, original.clone()),
    };
    cur.truncate(fail.step);
    let mut chunk = cur.len() / 2;
    while chunk >= 1 {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() {
            let mut cand = cur.clone();
            let end = (i + chunk).min(cand.len());
            cand.drain(i..end);
            // what is left must fail in the same way, if the property is about one way to fail
            let same = |f: &Failure| !LENIENT.load(Relaxed) || (f.kind == fail.kind && f.msg.starts_with("observing") == fail.msg.starts_with("observing"));
            if let Some(f) = match run_any(tab, cfg, &cand, live) {
                Outcome::Fail(f) if same(&f) => Some(f),
                _ => None,
            } {
                cand.truncate(f.step.max(1).min(cand.len()));
                cur = cand;
                fail = f;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if !changed || chunk > 1 {
            chunk = if changed && chunk == 1 { 1 } else { chunk / 2 };
        }
    }
    (cur, fail)
}
