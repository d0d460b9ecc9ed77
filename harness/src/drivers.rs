//! Checks that are not histories of one map: equality of two maps, the known finding's probes,
//! OptionalPair; and replays.
use crate::dispatch;
use crate::engine::*;
use crate::explore::*;
use crate::item::*;
use crate::props::*;
use crate::subj::*;
use crate::table::*;
use crate::val::*;
use cycle_map::optionals::OptionalPair;
use cycle_map::optionals::OptionalPair::*;
use serde_json::json;
use std::sync::atomic::Ordering::*;

/// a map built by the calls, if everything it showed on the way conforms
fn build<T: Subject>(tab: &Table, cfg: &Cfg, calls: &[Call]) -> Option<(T, usize)> {
    if let Some(h) = cfg.hb {
        set_default_hb(h);
    }
    let mut m = T::fresh(cfg);
    let mut st = 0;
    for c in calls {
        let e = tab.entry(st, c)?;
        let r = guarded("build", || {
            let r = m.apply(c);
            (r, m.observe(&tab.dom))
        });
        let Ok((r, o)) = r else {
            std::mem::forget(m);
            return None;
        };
        match e.outs.iter().find(|(er, es)| *er == r && tab.obs[*es] == o) {
            Some((_, s1)) => st = *s1,
            None => {
                std::mem::forget(m);
                return None;
            }
        }
    }
    Some((m, st))
}

// ------------------------------------------------------------ equality

struct Built<T> {
    m: T,
    st: usize,
    cfg: Cfg,
    calls: Vec<Call>,
}

fn eq_replay<T>(tab: &Table, a: &Built<T>, b: &Built<T>, what: &str) -> serde_json::Value {
    let side = |x: &Built<T>| {
        json!({"cfg": cfg_json(&x.cfg), "calls": x.calls.iter().map(call_json).collect::<Vec<_>>(),
               "readable": x.calls.iter().map(show).collect::<Vec<_>>(), "contents": tab.states[x.st].to_string()})
    };
    json!({"kind": "eq", "map": tab.map, "table": tab.name, "a": side(a), "b": side(b), "failure": what})
}

/// None: as specified. Some(true): as the known finding has it.
fn eq_verdict(got: &Result<((bool, bool), (bool, bool)), String>, tab: &Table, a: usize, b: usize) -> Option<bool> {
    let ((t, c), (_, c2)) = (tab.eq[&(a, b)], tab.eq[&(b, a)]);
    if *got == Ok(((t, !t), (t, !t))) {
        None
    } else {
        Some(*got == Ok(((c, !c), (c2, !c2))))
    }
}

fn compare<T: Subject>(ctx: &Ctx, tab: &Table, a: &Built<T>, b: &Built<T>) {
    let (t, _) = tab.eq[&(a.st, b.st)];
    let got = guarded("compare", || (a.m.equal(&b.m), b.m.equal(&a.m)));
    match eq_verdict(&got, tab, a.st, b.st) {
        None => {}
        Some(true) if ctx.known.contains("partial-eq") => ctx.see_known("partial-eq"),
        Some(_) => {
            let what = match &got {
                Ok(((e, n), (e2, n2))) => format!(
                    "a == b is {e}, a != b is {n}, b == a is {e2}, b != a is {n2}; specified: contents {} and {} are {}",
                    tab.states[a.st], tab.states[b.st], if t { "equal" } else { "different" }
                ),
                Err(p) => format!("comparing panicked: {p}"),
            };
            let mine = match ctx.kind {
                PKind::Equality => true,
                PKind::NoPanic => got.is_err(),
                // wrong only because of the hashes?
                PKind::Hash => (0..4).all(|s| {
                    let cfg = Cfg { hb: Some(Hb { mode: Mode::Good, seed: 900 + s }), cap: 0, plain: 0 };
                    match (build::<T>(tab, &cfg, &a.calls), build::<T>(tab, &cfg, &b.calls)) {
                        (Some((x, xs)), Some((y, ys))) if xs == a.st && ys == b.st => {
                            let g = guarded("compare", || (x.equal(&y), y.equal(&x)));
                            eq_verdict(&g, tab, a.st, b.st).is_none()
                        }
                        _ => false,
                    }
                }),
                _ => false,
            };
            if mine {
                ctx.violate(what.clone(), eq_replay(tab, a, b, &what));
            } else {
                ctx.count("failures attributed to other properties", 1);
            }
        }
    }
}

fn random_history<T: Subject>(ctx: &Ctx, tab: &Table, rng: &mut Rng, cfg: &Cfg, len: usize) -> Option<Built<T>> {
    if let Some(h) = cfg.hb {
        set_default_hb(h);
    }
    let mut m = T::fresh(cfg);
    let mut st = 0;
    let mut calls = vec![];
    let bans = Default::default();
    for _ in 0..len {
        let Some(c) = choose(ctx, tab, st, rng, &bans) else { break };
        // these make a new map, with another hash builder
        if matches!(c.op.as_str(), "deserialize" | "round_trip") {
            continue;
        }
        let e = tab.entry(st, &c)?;
        calls.push(c.clone());
        let r = guarded("build", || (m.apply(&c), m.observe(&tab.dom)));
        let good = match r {
            Ok((r, o)) => e.outs.iter().find(|(er, es)| *er == r && tab.obs[*es] == o).map(|x| x.1),
            Err(_) => None,
        };
        match good {
            Some(s1) => st = s1,
            None => {
                std::mem::forget(m);
                return None;
            }
        }
    }
    Some(Built { m, st, cfg: *cfg, calls })
}

fn eq_cfg(rng: &mut Rng, kind: PKind, default: bool) -> Cfg {
    loop {
        let c = random_cfg(rng, kind);
        if c.hb.is_none() == default {
            return c;
        }
        if default && rng.chance(50) {
            return Cfg { hb: None, ..c };
        }
    }
}

/// all pairs of states, both built by insertions
fn eq_sweep<T: Subject>(ctx: &Ctx, tab: &Table, ca: &Cfg, cb: &Cfg) {
    track_reset();
    let all = |cfg: &Cfg| -> Vec<Built<T>> {
        (0..tab.states.len())
            .filter_map(|st| {
                let calls = tab.path(st);
                build::<T>(tab, cfg, &calls).filter(|(_, s)| *s == st).map(|(m, st)| Built { m, st, cfg: *cfg, calls })
            })
            .collect()
    };
    let (xs, ys) = (all(ca), all(cb));
    let mut n = 0;
    for a in &xs {
        for b in &ys {
            if ctx.done() {
                return;
            }
            compare(ctx, tab, a, b);
            n += 1;
        }
    }
    ctx.count(&format!("pairs of maps compared {}", tab.name), n);
}

/// maps with long random lives
fn eq_pool<T: Subject>(ctx: &Ctx, tab: &Table, seed: u64, default: bool) {
    track_reset();
    let mut rng = Rng::new(seed);
    let mut pool: Vec<Built<T>> = vec![];
    for _ in 0..40 {
        if ctx.done() {
            return;
        }
        let cfg = eq_cfg(&mut rng, ctx.kind, default);
        let len = 1 + rng.below(30);
        let Some(x) = random_history::<T>(ctx, tab, &mut rng, &cfg, len) else { continue };
        ctx.histories.fetch_add(1, Relaxed);
        // the same contents, built in another way, in a map of another kind
        let other = eq_cfg(&mut rng, ctx.kind, default);
        let calls = tab.path(x.st);
        if let Some((m, st)) = build::<T>(tab, &other, &calls) {
            if st == x.st {
                pool.push(Built { m, st, cfg: other, calls });
            }
        }
        pool.push(x);
    }
    let mut n = 0;
    for a in &pool {
        for b in &pool {
            compare(ctx, tab, a, b);
            n += 1;
        }
        if ctx.done() {
            return;
        }
    }
    if rng.chance(3) && pool.len() > 3 {
        let (a, b) = (&pool[2], &pool[3]);
        ctx.sample(|| json!({"map": tab.map, "compared": [a.calls.iter().map(show).collect::<Vec<_>>(), b.calls.iter().map(show).collect::<Vec<_>>()],
            "specified": tab.eq[&(a.st, b.st)].0}));
    }
    ctx.count(&format!("pairs of maps compared {}", tab.name), n);
}

pub fn equality(ctx: &Ctx) {
    let mut rng = Rng::new(ctx.seed ^ 77);
    let good = |rng: &mut Rng| Cfg { hb: Some(Hb { mode: Mode::Good, seed: rng.next() % 1000 }), cap: 0, plain: 0 };
    let full = ctx.kind == PKind::Equality;
    type Job<'a> = Box<dyn FnOnce() + Send + 'a>;
    let mut jobs: Vec<Job> = vec![];
    for tab in ctx.tables.iter().filter(|t| !t.eq.is_empty()) {
        let mut pairs = vec![];
        let zero = Cfg { hb: Some(Hb { mode: Mode::Zero, seed: 0 }), cap: 0, plain: 0 };
        pairs.push((zero, zero));
        pairs.push((Cfg { cap: 9, ..zero }, Cfg { hb: Some(Hb { mode: Mode::Classes, seed: rng.next() % 1000 }), cap: 0, plain: 0 }));
        if full {
            let (a, b) = (good(&mut rng), good(&mut rng));
            pairs.push((a, a));
            pairs.push((a, b));
            pairs.push((Cfg { hb: None, cap: 0, plain: 0 }, Cfg { hb: None, cap: 20, plain: 0 }));
            for m in if ctx.thorough { &MODES[..] } else { &[] } {
                pairs.push((Cfg { hb: Some(Hb { mode: *m, seed: 3 }), cap: 4, plain: 0 }, good(&mut rng)));
            }
        }
        for (a, b) in pairs {
            jobs.push(Box::new(move || dispatch!(tab.map.as_str(), &a, eq_sweep, ctx, tab, &a, &b)));
        }
        let n = if ctx.thorough { 4000 } else if full { 60 } else { 16 };
        for i in 0..n {
            let seed = rng.next();
            let default = full && i % 5 == 0;
            let pick = Cfg { hb: if default { None } else { Some(Hb { mode: Mode::Good, seed: 0 }) }, cap: 0, plain: 0 };
            jobs.push(Box::new(move || dispatch!(tab.map.as_str(), &pick, eq_pool, ctx, tab, seed, default)));
        }
    }
    run_jobs(ctx, jobs);
}

pub fn run_jobs<'a>(ctx: &Ctx, jobs: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    let jobs: Vec<std::sync::Mutex<Option<Box<dyn FnOnce() + Send + 'a>>>> = jobs.into_iter().map(|j| std::sync::Mutex::new(Some(j))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..ctx.threads {
            sc.spawn(|| {
                let slot = new_slot();
                ctx.slots.lock().unwrap().push(slot);
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= jobs.len() || ctx.done() {
                        break;
                    }
                    let j = jobs[i].lock().unwrap().take().unwrap();
                    j();
                }
                track_reset();
            });
        }
    });
}

// ------------------------------------------------------------ the known finding of GroupMap::insert

/// Probes of insert(l, r) of items already paired with each other.
pub fn reinsertions(ctx: &Ctx) {
    let cfgs = [
        Cfg { hb: Some(Hb { mode: Mode::Good, seed: ctx.seed }), cap: 0, plain: 0 },
        Cfg { hb: Some(Hb { mode: Mode::Zero, seed: 0 }), cap: 0, plain: 0 },
        Cfg { hb: None, cap: 0, plain: 0 },
    ];
    let slot = new_slot();
    ctx.slots.lock().unwrap().push(slot);
    for tab in ctx.tables.iter().filter(|t| t.map == "GroupMap") {
        for cfg in &cfgs {
            dispatch!("GroupMap", cfg, reinsert, ctx, tab, cfg)
        }
    }
}
fn reinsert<T: Subject>(ctx: &Ctx, tab: &Table, cfg: &Cfg) {
    let listed = ctx.known.contains("group-reinsert");
    let mut n = 0;
    for st in 0..tab.states.len() {
        let path = tab.path(st);
        for e in tab.entries[st].iter().filter(|e| e.known && e.call.op == "insert") {
            if ctx.done() {
                return;
            }
            track_reset();
            let Some((mut m, s0)) = build::<T>(tab, cfg, &path) else { break };
            if s0 != st {
                break;
            }
            n += 1;
            let mut calls = path.clone();
            calls.push(e.call.clone());
            let (lk, rk) = (e.call.a.at(0).at(0).clone(), e.call.a.at(1).at(0).clone());
            let what = |got: &str| format!("{} of an existing pair in state {}: {}", show(&e.call), tab.states[st], got);
            let viol = |calls: &[Call], msg: String| {
                ctx.violate(msg.clone(), json!({"kind": "reinsert", "map": tab.map, "table": tab.name, "cfg": cfg_json(cfg),
                    "calls": calls.iter().map(call_json).collect::<Vec<_>>(), "readable": calls.iter().map(show).collect::<Vec<_>>(), "failure": msg}));
            };
            let r = guarded("re-insert", || (m.apply(&e.call), m.observe(&tab.dom)));
            match r {
                Err(p) => {
                    std::mem::forget(m);
                    viol(&calls, what(&format!("panicked: {p}")));
                    return;
                }
                Ok((r, o)) => {
                    let defect = tab.defect.get(&(st, L(vec![lk.clone(), rk.clone()])));
                    if e.outs.iter().any(|(er, es)| *er == r && tab.obs[*es] == o) {
                        // as specified
                    } else if listed && defect == Some(&o) && r == Val::unit() {
                        if ctx.kind != PKind::NoPanic {
                            ctx.see_known("group-reinsert");
                        }
                    } else if ctx.id == "G02" || (ctx.id == "G01" && !tab.legal.contains_key(&o)) {
                        std::mem::forget(m);
                        viol(&calls, what(&format!("shows {o}")));
                        return;
                    }
                }
            }
            if ctx.kind == PKind::NoPanic {
                // what comes next panics
                let next = [
                    Call { op: "remove_left".into(), a: L(vec![lk.clone()]), var: 0 },
                    Call { op: "insert".into(), a: L(vec![e.call.a.at(0).clone(), L(vec![I((rk.int() % tab.dom.nr as i64) + 1), I(0)])]), var: 0 },
                ];
                for c in next {
                    let Some((mut m2, _)) = build::<T>(tab, cfg, &path) else { break };
                    let r = guarded("after re-insert", || {
                        m2.apply(&e.call);
                        m2.apply(&c);
                    });
                    std::mem::forget(m2);
                    if let Err(p) = r {
                        if listed {
                            ctx.see_known("group-reinsert");
                        } else {
                            calls.push(c.clone());
                            viol(&calls, format!("{} after inserting an existing pair again panicked: {p}", show(&c)));
                            return;
                        }
                    }
                }
            }
            std::mem::forget(m);
        }
    }
    ctx.count("re-insertions of an existing pair probed", n);
}

// ------------------------------------------------------------ OptionalPair

type Op = OptionalPair<Tk, Tk>;
#[derive(PartialEq, Eq)]
struct WL(Tk);
#[derive(PartialEq, Eq)]
struct WR(Tk);
impl From<Tk> for WL {
    fn from(t: Tk) -> WL {
        WL(t)
    }
}
impl From<Tk> for WR {
    fn from(t: Tk) -> WR {
        WR(t)
    }
}
fn opt_key(o: &Option<Tk>) -> Val {
    L(o.iter().map(|t| t.kval()).collect())
}
fn opt_key_ref(o: Option<&Tk>) -> Val {
    L(o.iter().map(|t| t.kval()).collect())
}
/// which side, and which key: a left item in the right place is a mistake too
fn sided(o: Option<&Tk>, side: u8) -> Val {
    match o {
        Some(t) if t.q.side != side => s("an item of the other side"),
        o => opt_key_ref(o),
    }
}
fn make(v: &Val) -> Op {
    let l = v.at(0).list().first().map(|k| Tk::new(0, k.int() as u32, 0));
    let r = v.at(1).list().first().map(|k| Tk::new(1, k.int() as u32, 0));
    match (l, r) {
        (None, None) => Neither,
        (Some(l), None) => SomeLeft(l),
        (None, Some(r)) => SomeRight(r),
        (Some(l), Some(r)) => SomeBoth(l, r),
    }
}
fn value(o: &Op) -> Val {
    match o {
        Neither => L(vec![L(vec![]), L(vec![])]),
        SomeLeft(l) => L(vec![sided(Some(l), 0), L(vec![])]),
        SomeRight(r) => L(vec![L(vec![]), sided(Some(r), 1)]),
        SomeBoth(l, r) => L(vec![sided(Some(l), 0), sided(Some(r), 1)]),
    }
}
fn obs(o: &Op) -> Val {
    let pair: (Option<Tk>, Option<Tk>) = o.clone().into();
    let op: Option<(Option<Tk>, Option<Tk>)> = o.clone().into();
    // gl gr none op pair some variant
    L(vec![
        sided(o.get_left(), 0),
        sided(o.get_right(), 1),
        B(o.is_none()),
        L(op.iter().map(|(l, r)| L(vec![sided(l.as_ref(), 0), sided(r.as_ref(), 1)])).collect()),
        L(vec![sided(pair.0.as_ref(), 0), sided(pair.1.as_ref(), 1)]),
        B(o.is_some()),
        op_val(o, |x| x.kval(), |x| x.kval()),
    ])
}
fn step_op(o: Op, op: &str, nv: u32) -> (Op, Val) {
    let (mut cl, mut cr) = (0, 0);
    let f = |mut t: Tk| {
        t.q.key = t.q.key % nv + 1;
        t
    };
    let g = |mut t: Tk| {
        t.q.key = (t.q.key + 1) % nv + 1;
        t
    };
    let n = match op {
        "map" => o.map(
            |t| {
                cl += 1;
                f(t)
            },
            |t| {
                cr += 1;
                g(t)
            },
        ),
        "map_left" => o.map_left(|t| {
            cl += 1;
            f(t)
        }),
        "map_right" => o.map_right(|t| {
            cr += 1;
            g(t)
        }),
        "convert" => {
            let w: OptionalPair<WL, WR> = o.convert();
            match w {
                Neither => Neither,
                SomeLeft(l) => SomeLeft(l.0),
                SomeRight(r) => SomeRight(r.0),
                SomeBoth(l, r) => SomeBoth(l.0, r.0),
            }
        }
        "clone" => o.clone(),
        "cloned" => {
            let refs: OptionalPair<&Tk, &Tk> = match &o {
                Neither => Neither,
                SomeLeft(l) => SomeLeft(l),
                SomeRight(r) => SomeRight(r),
                SomeBoth(l, r) => SomeBoth(l, r),
            };
            refs.cloned()
        }
        "via_pair" => {
            let p: (Option<Tk>, Option<Tk>) = o.into();
            Op::from(p)
        }
        "via_option_pair" => {
            let p: Option<(Option<Tk>, Option<Tk>)> = o.into();
            Op::from(p)
        }
        x => panic!("unknown operation {x}"),
    };
    (n, L(vec![I(cl), I(cr)]))
}
fn sides(v: &Val) -> usize {
    v.at(0).list().len() + v.at(1).list().len()
}
fn leftover(v: &Val) -> Option<String> {
    if track_has_errors() {
        Some(track_errors().join("; "))
    } else if track_live() != sides(v) {
        Some(format!("{} items are alive instead of {}", track_live(), sides(v)))
    } else {
        None
    }
}

pub struct OptTable {
    nv: u32,
    /// value, operation, closure calls, new value
    steps: Vec<(Val, String, Val, Val)>,
    obs: Vec<(Val, Val)>,
    from: Vec<(Val, Val)>,
}
pub fn load_opt(path: &str) -> OptTable {
    let mut t = OptTable { nv: 0, steps: vec![], obs: vec![], from: vec![] };
    for line in std::fs::read_to_string(path).expect("OptionalPair table").lines() {
        let Some(x) = unquote(line) else { continue };
        if x.len() < 3 || !matches!(&x[..2], "T " | "S " | "N ") {
            continue;
        }
        let v = Val::from_json(&serde_json::from_str(&x[2..]).unwrap());
        match &x[..2] {
            "T " => t.steps.push((v.at(0).clone(), v.at(1).str().to_string(), v.at(2).clone(), v.at(3).clone())),
            "S " => t.obs.push((v.at(0).clone(), v.at(1).clone())),
            _ => t.from.push((v.at(0).clone(), v.at(1).at(0).clone())),
        }
    }
    t.steps.sort();
    t.steps.dedup();
    t.obs.sort();
    t.obs.dedup();
    t.nv = t.obs.iter().flat_map(|o| o.0.at(0).list().clone()).map(|k| k.int() as u32).max().unwrap();
    assert_eq!(t.obs.len() as u32, (t.nv + 1) * (t.nv + 1), "incomplete OptionalPair table");
    t
}

/// a composition of operations, judged after every one; what went wrong
fn compose(t: &OptTable, start: &Val, ops: &[String]) -> Option<String> {
    track_reset();
    let r = guarded("OptionalPair", || {
        let mut o = make(start);
        let mut v = start.clone();
        let mut done = vec![];
        for op in ops {
            done.push(op.clone());
            let (_, _, c, v2) = t.steps.iter().find(|x| x.0 == v && x.1 == *op).expect("step");
            let (n, calls) = step_op(o, op, t.nv);
            let what = |m: String| Some(format!("from {start} by {done:?}: {m}"));
            if value(&n) != *v2 {
                return what(format!("value {} instead of {v2}", value(&n)));
            }
            if calls != *c {
                return what(format!("closures were called {calls} times instead of {c}"));
            }
            let want = &t.obs.iter().find(|x| x.0 == *v2).expect("obs").1;
            let got = obs(&n);
            if got != *want {
                return what(format!("observed {got} instead of {want}"));
            }
            if let Some(m) = leftover(v2) {
                return what(m);
            }
            o = n;
            v = v2.clone();
        }
        drop(o);
        leftover(&L(vec![L(vec![]), L(vec![])])).map(|m| format!("from {start} by {done:?}, then drop: {m}"))
    });
    match r {
        Ok(x) => x,
        Err(p) => Some(format!("from {start} by {ops:?}: panic: {p}")),
    }
}

fn opt_static(t: &OptTable) -> (u64, Option<String>) {
    let mut n = 0;
    let mut bad = None;
    let r = guarded("OptionalPair", || {
        for (v, want) in &t.obs {
            n += 1;
            let o = make(v);
            if obs(&o) != *want {
                bad = Some(format!("{v} observed as {} instead of {want}", obs(&o)));
            }
        }
        for (v, froms) in &t.from {
            for f in froms.list() {
                n += 1;
                let tk = |x: &Val, side| x.list().first().map(|k| Tk::new(side, k.int() as u32, 0));
                let o: Option<(Option<Tk>, Option<Tk>)> = f.list().first().map(|p| (tk(p.at(0), 0), tk(p.at(1), 1)));
                let got = value(&Op::from(o));
                if got != *v {
                    bad = Some(format!("from Option {f}: {got} instead of {v}"));
                }
                if let Some(p) = f.list().first() {
                    let got = value(&Op::from((tk(p.at(0), 0), tk(p.at(1), 1))));
                    if got != *v {
                        bad = Some(format!("from pair {p}: {got} instead of {v}"));
                    }
                    let back: (Option<Tk>, Option<Tk>) = Op::from((tk(p.at(0), 0), tk(p.at(1), 1))).into();
                    if opt_key(&back.0) != *p.at(0) || opt_key(&back.1) != *p.at(1) {
                        bad = Some(format!("pair {p} changed on the way"));
                    }
                }
            }
        }
        for (a, _) in &t.obs {
            for (b, _) in &t.obs {
                n += 1;
                let (x, y) = (make(a), make(b));
                if (x == y, x != y) != (a == b, a != b) {
                    bad = Some(format!("{a} == {b} is {}, != is {}", x == y, x != y));
                }
            }
        }
    });
    if let Err(p) = r {
        bad = Some(format!("panic: {p}"));
    }
    (n, bad)
}

pub fn optional(ctx: &Ctx, path: &str) {
    let slot = new_slot();
    ctx.slots.lock().unwrap().push(slot);
    let t = load_opt(path);
    let (n, bad) = opt_static(&t);
    ctx.count("values, conversions and comparisons checked", n);
    if let Some(m) = bad {
        ctx.violate(m.clone(), json!({"kind": "optional-static", "failure": m}));
        return;
    }
    let mut ops: Vec<String> = t.steps.iter().map(|x| x.1.clone()).collect();
    ops.sort();
    ops.dedup();
    let run = |start: &Val, seq: Vec<String>| -> bool {
        ctx.histories.fetch_add(1, Relaxed);
        if let Some(m) = compose(&t, start, &seq) {
            // the shortest part that still fails
            let mut seq = seq;
            while seq.len() > 1 && compose(&t, start, &seq[..seq.len() - 1]).is_some() {
                seq.pop();
            }
            ctx.violate(m.clone(), json!({"kind": "optional", "start": start.to_json(), "ops": seq, "failure": m}));
            return false;
        }
        true
    };
    // every composition of up to three (thorough: five) operations from every value
    let depth = if ctx.thorough { 5 } else { 3 };
    for (start, _) in &t.obs {
        let mut idx = vec![0usize; depth];
        'all: loop {
            if ctx.done() || !run(start, idx.iter().map(|i| ops[*i].clone()).collect()) {
                return;
            }
            for d in (0..depth).rev() {
                idx[d] += 1;
                if idx[d] < ops.len() {
                    continue 'all;
                }
                idx[d] = 0;
            }
            break;
        }
    }
    ctx.count("compositions enumerated", ctx.histories.load(Relaxed));
    let mut rng = Rng::new(ctx.seed);
    for _ in 0..if ctx.thorough { 200_000 } else { 20_000 } {
        if ctx.done() {
            return;
        }
        let start = rng.pick(&t.obs).0.clone();
        let len = 4 + rng.below(20);
        let seq: Vec<String> = (0..len).map(|_| rng.pick(&ops).clone()).collect();
        if rng.chance(1) {
            ctx.sample(|| json!({"start": start.to_string(), "operations": seq}));
        }
        if !run(&start, seq) {
            return;
        }
    }
}

// ------------------------------------------------------------ replays

pub fn replay(tables: &[Table], v: &serde_json::Value) -> bool {
    let kind = v["kind"].as_str().unwrap_or("");
    let calls = |v: &serde_json::Value| -> Vec<Call> { v.as_array().unwrap().iter().map(call_from).collect() };
    let tab = tables.iter().find(|t| Some(t.name.as_str()) == v["table"].as_str()).expect("the table of the replay");
    match kind {
        "history" => {
            let out = run_any(tab, &cfg_from(&v["cfg"]), &calls(&v["calls"]), true);
            println!("{out:?}");
            matches!(out, Outcome::Pass)
        }
        "eq" => {
            fn go<T: Subject>(tab: &Table, ca: &Cfg, a: &[Call], cb: &Cfg, b: &[Call]) -> bool {
                let (Some((x, xs)), Some((y, ys))) = (build::<T>(tab, ca, a), build::<T>(tab, cb, b)) else { return false };
                let got = guarded("compare", || (x.equal(&y), y.equal(&x)));
                println!("{got:?}, specified {:?}", tab.eq.get(&(xs, ys)));
                eq_verdict(&got, tab, xs, ys).is_none()
            }
            let (ca, cb) = (cfg_from(&v["a"]["cfg"]), cfg_from(&v["b"]["cfg"]));
            let (a, b) = (calls(&v["a"]["calls"]), calls(&v["b"]["calls"]));
            dispatch!(tab.map.as_str(), &ca, go, tab, &ca, &a, &cb, &b)
        }
        _ => {
            println!("{v}");
            false
        }
    }
}
