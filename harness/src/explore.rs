//! Exploration: sweeps over the whole table, tours, random walks, forks.
use crate::dispatch;
use crate::engine::*;
use crate::item::*;
use crate::props::*;
use crate::subj::*;
use crate::table::*;
use crate::val::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Violation {
    pub message: String,
    pub replay: serde_json::Value,
}

pub struct Ctx {
    pub id: String,
    pub kind: PKind,
    pub tables: Vec<Table>,
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub known: BTreeSet<String>,
    pub threads: usize,
    pub violations: Mutex<Vec<Violation>>,
    pub known_seen: Mutex<BTreeMap<String, u64>>,
    pub banned: Mutex<HashSet<(String, String)>>,
    pub others: AtomicUsize,
    pub stop: AtomicBool,
    pub counts: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<serde_json::Value>>,
    pub slots: Mutex<Vec<Arc<Slot>>>,
    pub histories: AtomicU64,
    /// hash functions of the specification: classes of the left and of the right keys
    pub hashes: Vec<(Vec<u64>, Vec<u64>)>,
}

impl Ctx {
    pub fn done(&self) -> bool {
        self.stop.load(Relaxed) || Instant::now() > self.deadline
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn violate(&self, message: String, replay: serde_json::Value) {
        let mut v = self.violations.lock().unwrap();
        v.push(Violation { message, replay });
        self.stop.store(true, Relaxed);
    }
    pub fn sample(&self, v: impl FnOnce() -> serde_json::Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(v());
        }
    }
    pub fn see_known(&self, id: &str) {
        *self.known_seen.lock().unwrap().entry(id.to_string()).or_insert(0) += 1;
    }
    pub fn is_banned(&self, map: &str, op: &str) -> bool {
        self.banned.lock().unwrap().contains(&(map.to_string(), op.to_string()))
    }
    pub fn bans(&self, map: &str) -> HashSet<String> {
        self.banned.lock().unwrap().iter().filter(|b| b.0 == map).map(|b| b.1.clone()).collect()
    }
    pub fn live(&self) -> bool {
        self.kind == PKind::Conservation
    }
    pub fn wants(&self, map: &str, op: &str) -> bool {
        in_family(&self.id, map, op)
    }
}

pub fn replay_json(tab: &Table, cfg: &Cfg, calls: &[Call], f: &Failure) -> serde_json::Value {
    json!({
        "kind": "history", "map": tab.map, "table": tab.name, "cfg": cfg_json(cfg),
        "calls": calls.iter().map(call_json).collect::<Vec<_>>(),
        "readable": calls.iter().map(show).collect::<Vec<_>>(),
        "failure": f.msg, "failure_kind": format!("{:?}", f.kind),
    })
}

/// state of the table before the last call
fn pre_state(tab: &Table, cfg: &Cfg, calls: &[Call]) -> Option<usize> {
    fn go<T: Subject>(tab: &Table, cfg: &Cfg, calls: &[Call]) -> Option<usize> {
        let mut s = Stepper::<T>::new(tab, cfg, false);
        for c in calls {
            match s.step(c) {
                Step::Done => {}
                _ => return None,
            }
        }
        let st = s.st;
        std::mem::forget(s.sub.take());
        Some(st)
    }
    dispatch!(tab.map.as_str(), cfg, go, tab, cfg, calls)
}

/// A history failed. Is it this property's?
pub fn judge(ctx: &Ctx, tab: &Table, cfg: &Cfg, calls: &[Call], fail: &Failure) {
    if ctx.stop.load(Relaxed) {
        return;
    }
    if ctx.kind == PKind::Family && ctx.others.load(Relaxed) > 60 {
        ctx.stop.store(true, Relaxed);
        return;
    }
    let live = ctx.live();
    let (min, f) = minimise(tab, cfg, calls, live, fail);
    let op = f.call.op.clone();
    let map = tab.map.as_str();
    let passes = |cfg: &Cfg, calls: &[Call]| matches!(run_any(tab, cfg, calls, live), Outcome::Pass);
    let observing = f.msg.starts_with("observing");
    let mine = match ctx.kind {
        PKind::Family | PKind::Clone | PKind::Capacity => {
            let own_last = ctx.wants(map, &op);
            let pre = if min.is_empty() { None } else { pre_state(tab, cfg, &min[..min.len() - 1]) };
            // the same contents, reached by plain insertions
            let control = |st: usize, c: Option<&Call>| {
                let mut h = tab.path(st);
                h.extend(c.cloned());
                h
            };
            if own_last {
                is_insertion_prop(&ctx.id)
                    || matches!(f.kind, Kind::Result)
                    || (f.kind == Kind::Panic && !observing)
                    || f.after.map_or(true, |s1| passes(cfg, &control(s1, None)))
            } else if !is_insertion_prop(&ctx.id) && min.iter().any(|c| ctx.wants(map, &c.op)) {
                // a call of another family fails only because one of this family came before
                pre.map_or(false, |s0| passes(cfg, &control(s0, Some(&f.call))))
            } else {
                false
            }
        }
        PKind::Consistency => f.kind == Kind::Illegal || (f.kind == Kind::Panic && observing),
        PKind::NoPanic => f.kind == Kind::Panic,
        PKind::Conservation => f.kind == Kind::Live,
        PKind::Hash => match cfg.hb {
            Some(h) if !h.mode.sane() => [Mode::Good, Mode::SameSides]
                .iter()
                .flat_map(|m| (0..4).map(move |s| Hb { mode: *m, seed: 77 + s }))
                .all(|h| passes(&Cfg { hb: Some(h), cap: cfg.cap, plain: 0 }, &min)),
            _ => false,
        },
        _ => false,
    };
    if mine {
        let mut r = replay_json(tab, cfg, &min, &f);
        if ctx.kind == PKind::Hash {
            r["note"] = json!("the same calls conform to the specification with a well-spread hash");
        }
        ctx.violate(f.msg.clone(), r);
    } else {
        ctx.others.fetch_add(1, Relaxed);
        ctx.count("failures attributed to other properties", 1);
        if !matches!(op.as_str(), "insert" | "insert_left" | "insert_right") && !(ctx.kind == PKind::Family && ctx.wants(map, &op)) {
            ctx.banned.lock().unwrap().insert((map.to_string(), op));
        } else if ctx.others.load(Relaxed) > 60 {
            ctx.stop.store(true, Relaxed);
        }
    }
}

pub enum Task {
    Sweep { tab: usize, cfg: Cfg, from: usize, to: usize },
    Tour { tab: usize, cfg: Cfg, seed: u64 },
    Walks { tab: usize, seed: u64, n: usize, len: usize },
    Forks { tab: usize, seed: u64, n: usize, len: usize },
}

pub fn run_tasks(ctx: &Ctx, tasks: Vec<Task>) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..ctx.threads {
            sc.spawn(|| {
                let slot = new_slot();
                ctx.slots.lock().unwrap().push(slot);
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= tasks.len() || ctx.done() {
                        break;
                    }
                    run_task(ctx, &tasks[i]);
                }
                track_reset();
            });
        }
    });
    ctx.count("tasks", next.load(Relaxed).min(tasks.len()) as u64);
}

fn run_task(ctx: &Ctx, t: &Task) {
    match t {
        Task::Sweep { tab, cfg, from, to } => {
            let tab = &ctx.tables[*tab];
            dispatch!(tab.map.as_str(), cfg, sweep, ctx, tab, cfg, *from, *to)
        }
        Task::Tour { tab, cfg, seed } => {
            let tab = &ctx.tables[*tab];
            dispatch!(tab.map.as_str(), cfg, tour, ctx, tab, cfg, *seed)
        }
        Task::Walks { tab, seed, n, len } => {
            let tab = &ctx.tables[*tab];
            let mut rng = Rng::new(*seed);
            for _ in 0..*n {
                if ctx.done() {
                    return;
                }
                let cfg = random_cfg(&mut rng, ctx.kind);
                let s = rng.next();
                dispatch!(tab.map.as_str(), cfg, walk, ctx, tab, &cfg, s, *len)
            }
        }
        Task::Forks { tab, seed, n, len } => {
            let tab = &ctx.tables[*tab];
            let mut rng = Rng::new(*seed);
            for _ in 0..*n {
                if ctx.done() {
                    return;
                }
                let cfg = random_cfg(&mut rng, ctx.kind);
                let s = rng.next();
                dispatch!(tab.map.as_str(), cfg, forks, ctx, tab, &cfg, s, *len)
            }
        }
    }
}

pub fn random_cfg(rng: &mut Rng, kind: PKind) -> Cfg {
    let caps = [0usize, 0, 0, 1, 2, 4, 9, 30];
    let cap = *rng.pick(&caps);
    let i = rng.below(if kind == PKind::Hash { 14 } else { 16 });
    let mode = match i {
        0..=10 => MODES[i],
        11 => Mode::Zero,
        12 => Mode::Classes,
        13 => Mode::Classes,
        _ => return Cfg { hb: None, cap, plain: 0 },
    };
    Cfg { hb: Some(Hb { mode, seed: rng.next() % 1000 }), cap, plain: *rng.pick(&[0u8, 0, 0, 0, 0, 1, 2, 3]) }
}

fn sweep<T: Subject>(ctx: &Ctx, tab: &Table, cfg: &Cfg, from: usize, to: usize) {
    let mut var = from as u32;
    let mut n = 0u64;
    for st in from..to {
        let path = tab.path(st);
        let bans = ctx.bans(&tab.map);
        for e in &tab.entries[st] {
            if e.known || !ctx.wants(&tab.map, &e.call.op) || bans.contains(&e.call.op) {
                continue;
            }
            if ctx.done() {
                return;
            }
            var = var.wrapping_add(1);
            let mut h = path.clone();
            h.push(Call { var, ..e.call.clone() });
            n += 1;
            if n == 40 {
                ctx.sample(|| json!({"map": tab.map, "hasher": cfg_json(cfg), "history": h.iter().map(show).collect::<Vec<_>>()}));
            }
            if let Outcome::Fail(f) = run_history::<T>(tab, cfg, &h, ctx.live()) {
                judge(ctx, tab, cfg, &h, &f);
            }
        }
    }
    ctx.histories.fetch_add(n, Relaxed);
    ctx.count(&format!("sweep histories {}", tab.name), n);
}

/// One long life of a map that makes every call of the family in every state.
fn tour<T: Subject>(ctx: &Ctx, tab: &Table, cfg: &Cfg, seed: u64) {
    let mut rng = Rng::new(seed);
    let bans0 = ctx.bans(&tab.map);
    let mut todo: Vec<Vec<usize>> = (0..tab.states.len())
        .map(|st| {
            tab.entries[st]
                .iter()
                .enumerate()
                .filter(|(_, e)| !e.known && ctx.wants(&tab.map, &e.call.op) && !bans0.contains(&e.call.op))
                .map(|(i, _)| i)
                .collect()
        })
        .collect();
    // shuffled, so that successive tours differ
    for v in todo.iter_mut() {
        for i in (1..v.len()).rev() {
            let j = rng.below(i + 1);
            v.swap(i, j);
        }
    }
    let mut covered = 0u64;
    let mut restarts = 0;
    'life: loop {
        let mut s = Stepper::<T>::new(tab, cfg, ctx.live());
        ctx.histories.fetch_add(1, Relaxed);
        let mut hist: Vec<Call> = vec![];
        let mut route: Vec<Option<usize>> = vec![];
        let mut stale = true;
        let mut age = 0;
        loop {
            if ctx.done() {
                break 'life;
            }
            let (i, own) = match todo[s.st].pop() {
                Some(i) => {
                    if todo[s.st].is_empty() {
                        stale = true;
                    }
                    (i, true)
                }
                None => {
                    if stale {
                        let t: Vec<bool> = todo.iter().map(|v| !v.is_empty()).collect();
                        if !t.iter().any(|x| *x) {
                            break 'life;
                        }
                        route = tab.route(&t);
                        stale = false;
                    }
                    match route[s.st] {
                        Some(i) => (i, false),
                        None => break 'life,
                    }
                }
            };
            let e = &tab.entries[s.st][i];
            if own && ctx.is_banned(&tab.map, &e.call.op) {
                continue;
            }
            let c = Call { var: rng.next() as u32 % 1000, ..e.call.clone() };
            hist.push(c.clone());
            match s.step(&c) {
                Step::Done => {
                    if own {
                        covered += 1;
                    }
                }
                Step::NotInTable => unreachable!(),
                Step::Fail(f) => {
                    judge(ctx, tab, cfg, &hist, &f);
                    restarts += 1;
                    if restarts > 30 {
                        break 'life;
                    }
                    continue 'life;
                }
            }
            age += 1;
            // a new life now and then: failures stay short enough to minimise
            if age > 4000 {
                let last = c;
                if let Some(f) = s.finish(&last) {
                    judge(ctx, tab, cfg, &hist, &f);
                }
                continue 'life;
            }
        }
    }
    track_reset();
    ctx.count(&format!("tour transitions {}", tab.name), covered);
}

/// choose a call for a state
pub fn choose(ctx: &Ctx, tab: &Table, st: usize, rng: &mut Rng, bans: &HashSet<String>) -> Option<Call> {
    let ops = &tab.by_op[st];
    for _ in 0..30 {
        let roll = rng.below(100);
        let (op, ids) = rng.pick(ops);
        let own = ctx.wants(&tab.map, op);
        let builder = op.starts_with("insert") || op == "pair" || op == "extend" || op == "extend_opt";
        let wipes = matches!(op.as_str(), "clear" | "drain" | "collect" | "collect_opt" | "deserialize");
        let want = if roll < 45 { own } else if roll < 75 { builder } else { true };
        if !want || bans.contains(op) || (wipes && rng.chance(if own && ctx.kind == PKind::Family { 50 } else { 75 })) {
            continue;
        }
        let i = *rng.pick(ids);
        return Some(Call { var: rng.next() as u32 % 1000, ..tab.entries[st][i].call.clone() });
    }
    None
}

fn walk<T: Subject>(ctx: &Ctx, tab: &Table, cfg: &Cfg, seed: u64, len: usize) {
    let mut rng = Rng::new(seed);
    let bans = ctx.bans(&tab.map);
    let mut s = Stepper::<T>::new(tab, cfg, ctx.live());
    let mut hist: Vec<Call> = vec![];
    ctx.histories.fetch_add(1, Relaxed);
    for _ in 0..len {
        let Some(c) = choose(ctx, tab, s.st, &mut rng, &bans) else { break };
        hist.push(c.clone());
        match s.step(&c) {
            Step::Done => {}
            Step::NotInTable => unreachable!(),
            Step::Fail(f) => {
                judge(ctx, tab, cfg, &hist, &f);
                return;
            }
        }
    }
    if rng.chance(1) {
        ctx.sample(|| json!({"map": tab.map, "hasher": cfg_json(cfg), "history": hist.iter().take(12).map(show).collect::<Vec<_>>()}));
    }
    if let Some(c) = hist.last().cloned() {
        if let Some(f) = s.finish(&c) {
            judge(ctx, tab, cfg, &hist, &f);
        }
    }
    ctx.count(&format!("random walk steps {}", tab.name), hist.len() as u64);
}

// ------------------------------------------------------------ clones

pub fn replay_forks(ctx: &Ctx, tab: usize, v: &serde_json::Value) {
    let tab = &ctx.tables[tab];
    let cfg = cfg_from(&v["cfg"]);
    let (seed, len) = (v["seed"].as_u64().unwrap_or(0), v["len"].as_u64().unwrap_or(0) as usize);
    begin_episode(&tab.map, &cfg, &tab.name);
    dispatch!(tab.map.as_str(), &cfg, forks, ctx, tab, &cfg, seed, len);
}

/// Several maps cloned from one another, each used on its own.
fn forks<T: Subject>(ctx: &Ctx, tab: &Table, cfg: &Cfg, seed: u64, len: usize) {
    let mut rng = Rng::new(seed);
    let bans = ctx.bans(&tab.map);
    let mut log: Vec<serde_json::Value> = vec![];
    let mut maps: Vec<(Stepper<T>, Vec<Call>, bool)> = vec![(Stepper::new(tab, cfg, false), vec![], false)];
    ctx.histories.fetch_add(1, Relaxed);
    let live_ok = |maps: &[(Stepper<T>, Vec<Call>, bool)]| -> Option<String> {
        let mut all: Vec<u32> = maps.iter().flat_map(|m| m.0.sub.as_ref().unwrap().stored()).collect();
        let n = all.len();
        all.sort();
        all.dedup();
        if all.len() != n || all.iter().any(|i| !is_alive(*i)) {
            return Some("two maps share an item, or hold a dropped one".into());
        }
        if track_has_errors() {
            return Some(track_errors().join("; "));
        }
        if track_live() != n {
            return Some(format!("{} items alive, {} stored", track_live(), n));
        }
        None
    };
    let give_up = |maps: Vec<(Stepper<T>, Vec<Call>, bool)>| {
        for mut m in maps {
            std::mem::forget(m.0.sub.take());
        }
    };
    for step in 0..len {
        let i = rng.below(maps.len());
        let roll = rng.below(100);
        if maps.len() < 4 && roll < 12 {
            log.push(json!({"on": i, "op": "clone to a new map"}));
            let r = guarded("clone", || {
                let src = maps[i].0.sub.as_ref().unwrap();
                let c = src.dup();
                let eq = src.equal(&c) == (true, false) && c.equal(src) == (true, false);
                let o = c.observe(&tab.dom);
                (c, eq, o)
            });
            match r {
                Ok((c, eq, o)) => {
                    if !eq || o != tab.obs[maps[i].0.st] {
                        let msg = format!("a clone in state {} {} and shows {}", tab.states[maps[i].0.st], if eq { "is equal" } else { "is not equal" }, o);
                        // the original may itself be wrong only if it failed before
                        ctx.violate(msg, json!({"kind": "fork", "map": tab.map, "table": tab.name, "cfg": cfg_json(cfg), "log": log, "seed": seed, "len": len}));
                        std::mem::forget(c);
                        return give_up(maps);
                    }
                    let st = maps[i].0.st;
                    let hist = maps[i].1.clone();
                    let n = maps[i].0.n;
                    maps.push((Stepper { tab, sub: Some(c), st, n, live: false, extra_live: 0 }, hist, true));
                }
                Err(e) => {
                    ctx.violate(format!("clone panicked: {e}"), json!({"kind": "fork", "map": tab.map, "table": tab.name, "cfg": cfg_json(cfg), "log": log, "seed": seed, "len": len}));
                    return give_up(maps);
                }
            }
        } else if maps.len() > 1 && roll < 17 {
            log.push(json!({"on": i, "op": "drop"}));
            let (mut s, _, _) = maps.remove(i);
            let sub = s.sub.take();
            if guarded("drop", || drop(sub)).is_err() {
                return give_up(maps);
            }
        } else {
            let Some(c) = choose(ctx, tab, maps[i].0.st, &mut rng, &bans) else { continue };
            log.push(json!({"on": i, "op": show(&c)}));
            maps[i].1.push(c.clone());
            match maps[i].0.step(&c) {
                Step::Done => {}
                Step::NotInTable => unreachable!(),
                Step::Fail(f) => {
                    // the same calls on a single map, without the clones
                    let hist = maps[i].1.clone();
                    let linear: Vec<Call> = hist.iter().filter(|c| c.op != "clone").cloned().collect();
                    let first_fork = log.iter().any(|l| l["op"] == "clone to a new map");
                    give_up(maps);
                    if first_fork && matches!(run_any(tab, cfg, &linear, false), Outcome::Pass) {
                        let log = shrink_note(log);
                        ctx.violate(
                            format!("after cloning: {} (the same calls on one map conform)", f.msg),
                            json!({"kind": "fork", "map": tab.map, "table": tab.name, "cfg": cfg_json(cfg), "log": log, "seed": seed, "len": len}),
                        );
                    } else {
                        judge(ctx, tab, cfg, &hist, &f);
                    }
                    return;
                }
            }
        }
        // nobody else noticed
        for (j, (s, _, _)) in maps.iter().enumerate() {
            let o = guarded("observe", || s.sub.as_ref().unwrap().observe(&tab.dom));
            if o.as_ref().ok() != Some(&tab.obs[s.st]) {
                let msg = format!("map {j} changed although the call was made on map {i}: it should have contents {} and shows {:?}", tab.states[s.st], o);
                ctx.violate(msg, json!({"kind": "fork", "map": tab.map, "table": tab.name, "cfg": cfg_json(cfg), "log": log, "seed": seed, "len": len}));
                return give_up(maps);
            }
        }
        if maps.iter().any(|m| m.2) {
            if let Some(m) = live_ok(&maps) {
                // is it the clone's doing?
                let single = maps.iter().all(|m| {
                    let linear: Vec<Call> = m.1.iter().filter(|c| c.op != "clone").cloned().collect();
                    matches!(run_any(tab, cfg, &linear, true), Outcome::Pass)
                });
                // run_any resets the tracker: nothing can be continued after this
                give_up(maps);
                if single {
                    ctx.violate(format!("after cloning: {m}"), json!({"kind": "fork", "map": tab.map, "table": tab.name, "cfg": cfg_json(cfg), "log": log, "seed": seed, "len": len}));
                }
                return;
            }
        }
        let _ = step;
    }
    for (mut s, _, _) in maps {
        let sub = s.sub.take();
        let _ = guarded("drop", || drop(sub));
    }
    if rng.chance(1) {
        ctx.sample(|| json!({"map": tab.map, "hasher": cfg_json(cfg), "fork": log.iter().take(14).collect::<Vec<_>>()}));
    }
    ctx.count(&format!("fork steps {}", tab.name), log.len() as u64);
}
fn shrink_note(log: Vec<serde_json::Value>) -> Vec<serde_json::Value> {
    log
}

// ------------------------------------------------------------ plan

pub fn plan(ctx: &Ctx) -> Vec<Task> {
    let mut tasks = vec![];
    let mut rng = Rng::new(ctx.seed);
    let sd = |rng: &mut Rng| rng.next() % 1_000_000;
    let cfg = |mode, seed| Cfg { hb: Some(Hb { mode, seed }), cap: 0, plain: 0 };
    let everything = !matches!(ctx.kind, PKind::Family | PKind::Clone | PKind::Capacity);
    let rounds = if ctx.thorough { 12 } else { 1 };
    for round in 0..rounds {
        for (t, tab) in ctx.tables.iter().enumerate() {
            let n = tab.states.len();
            let mut cfgs = vec![];
            if round == 0 {
                if ctx.kind != PKind::Hash {
                    cfgs.push(cfg(Mode::Good, sd(&mut rng)));
                    cfgs.push(Cfg { hb: None, cap: 0, plain: 0 });
                }
                cfgs.push(cfg(Mode::Zero, 0));
                if !everything || ctx.kind == PKind::Hash {
                    cfgs.push(cfg(Mode::Classes, sd(&mut rng)));
                }
            } else {
                cfgs.push(cfg(MODES[round % MODES.len()], sd(&mut rng)));
            }
            for c in cfgs {
                let chunk = (n / 16).max(1);
                let mut i = 0;
                while i < n {
                    tasks.push(Task::Sweep { tab: t, cfg: c, from: i, to: (i + chunk).min(n) });
                    i += chunk;
                }
            }
            let mut tours = vec![cfg(Mode::Classes, sd(&mut rng)), cfg(Mode::Zero, 0), cfg(Mode::Mod2, 0), cfg(Mode::High, 0)];
            if ctx.kind != PKind::Hash {
                tours.push(cfg(Mode::Good, sd(&mut rng)));
                tours.push(Cfg { hb: None, cap: 0, plain: 0 });
            } else {
                tours.push(cfg(Mode::LeftZero, sd(&mut rng)));
                tours.push(cfg(Mode::RightZero, sd(&mut rng)));
            }
            if !ctx.hashes.is_empty() {
                // the design has no state besides contents and hash function (see TwoTables)
                let all = ctx.thorough || (ctx.kind == PKind::Hash && !tab.name.ends_with("Seq"));
                let n = if all { ctx.hashes.len() } else { 4 };
                for i in 0..n {
                    let (l, r) = if all { &ctx.hashes[i] } else { &ctx.hashes[rng.below(ctx.hashes.len())] };
                    let style = rng.below(3) as u64;
                    tours.push(Cfg { hb: Some(given(l, r, style, rng.chance(30))), cap: 0, plain: 0 });
                }
            }
            for c in tours {
                tasks.push(Task::Tour { tab: t, cfg: c, seed: sd(&mut rng) });
            }
        }
        for (t, _) in ctx.tables.iter().enumerate() {
            let n = if ctx.thorough { 200 } else { 40 };
            for _ in 0..n {
                if ctx.kind == PKind::Clone {
                    tasks.push(Task::Forks { tab: t, seed: sd(&mut rng), n: 25, len: 60 });
                } else {
                    tasks.push(Task::Walks { tab: t, seed: sd(&mut rng), n: 25, len: 80 });
                }
            }
        }
    }
    tasks
}

/// Kill the run when a call does not return.
pub fn watchdog(ctx: Arc<Ctx>, limit: Duration, on_hang: impl Fn(&Ctx, &Slot) + Send + 'static) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, Instant)> = vec![];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let slots = ctx.slots.lock().unwrap().clone();
            while last.len() < slots.len() {
                last.push((0, Instant::now()));
            }
            for (i, s) in slots.iter().enumerate() {
                let t = s.tick.load(Relaxed);
                if t != last[i].0 || !s.busy.load(Relaxed) {
                    last[i] = (t, Instant::now());
                } else if last[i].1.elapsed() > limit {
                    on_hang(&ctx, s);
                }
            }
        }
    });
}
