//! Conformance of the real maps to the specification (see /verif/DESIGN.md).
//!
//! harness run --prop ID --seed N --tier quick|thorough --threads N --time SECS
//!             --table NAME:MAP:PATH ... --eq NAME:PATH ... [--opt PATH] [--hashes PATH] --known ID ...
//!             --out RESULT.json [--journal FILE]
//! harness record: see record.rs
//! harness replay --prop ID --table NAME:MAP:PATH ... [--eq NAME:PATH] [--opt PATH] FILE
mod drivers;
mod engine;
mod explore;
mod item;
mod props;
mod record;
mod subj;
mod table;
mod val;
mod wire;

use engine::*;
use explore::*;
use props::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use table::Table;

#[derive(Default)]
pub struct Args {
    m: BTreeMap<String, Vec<String>>,
    free: Vec<String>,
}
impl Args {
    fn parse(it: impl Iterator<Item = String>) -> Args {
        let mut a = Args::default();
        let mut it = it.peekable();
        while let Some(x) = it.next() {
            match x.strip_prefix("--") {
                Some(k) => {
                    let v = it.next().unwrap_or_else(|| panic!("--{k} needs a value"));
                    a.m.entry(k.to_string()).or_default().push(v);
                }
                None => a.free.push(x),
            }
        }
        a
    }
    pub fn all(&self, k: &str) -> &[String] {
        self.m.get(k).map(|v| v.as_slice()).unwrap_or(&[])
    }
    pub fn one(&self, k: &str) -> Option<&str> {
        self.all(k).last().map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.one(k).map(|x| x.parse().expect("number")).unwrap_or(d)
    }
}

fn load_tables(a: &Args) -> Vec<Table> {
    let mut jobs: Vec<(String, String, String)> = vec![];
    for t in a.all("table") {
        let p: Vec<&str> = t.splitn(3, ':').collect();
        jobs.push((p[0].into(), p[1].into(), p[2].into()));
    }
    let mut tables: Vec<Table> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs.iter().map(|(n, m, p)| sc.spawn(move || Table::load(m, n, p))).collect();
        hs.into_iter().map(|h| h.join().expect("table")).collect()
    });
    for e in a.all("eq") {
        let (n, p) = e.split_once(':').unwrap();
        if let Some(t) = tables.iter_mut().find(|t| t.name == n) {
            t.load_eq(p);
        }
    }
    tables
}

fn result_json(ctx: &Ctx) -> serde_json::Value {
    let v = ctx.violations.lock().unwrap();
    json!({
        "violations": v.iter().map(|v| json!({"message": v.message, "replay": v.replay})).collect::<Vec<_>>(),
        "known": *ctx.known_seen.lock().unwrap(),
        "counts": *ctx.counts.lock().unwrap(),
        "samples": *ctx.samples.lock().unwrap(),
        "histories": ctx.histories.load(Relaxed),
        "steps": STEPS.load(Relaxed),
        "banned": ctx.banned.lock().unwrap().iter().map(|b| format!("{}::{}", b.0, b.1)).collect::<Vec<_>>(),
        "tables": ctx.tables.iter().map(|t| json!({"name": t.name, "map": t.map, "states": t.states.len(), "transitions": t.transitions})).collect::<Vec<_>>(),
    })
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn make_ctx(a: &Args, tables: Vec<Table>) -> Ctx {
    let id = a.one("prop").expect("--prop").to_string();
    let p = prop(&id);
    engine::LENIENT.store(p.lenient(), std::sync::atomic::Ordering::Relaxed);
    Ctx {
        id,
        kind: p.kind,
        tables,
        seed: a.num("seed", 1),
        thorough: a.one("tier") == Some("thorough"),
        deadline: Instant::now() + Duration::from_secs(a.num("time", 20)),
        known: a.all("known").iter().cloned().collect::<BTreeSet<_>>(),
        threads: a.num("threads", 8) as usize,
        violations: Mutex::new(vec![]),
        known_seen: Mutex::new(BTreeMap::new()),
        banned: Mutex::new(HashSet::new()),
        others: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        counts: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(vec![]),
        slots: Mutex::new(vec![]),
        histories: AtomicU64::new(0),
        hashes: a.all("hashes").iter().flat_map(|p| table::hash_functions(p)).collect(),
    }
}

fn run(a: Args) {
    let id = a.one("prop").expect("--prop").to_string();
    let out = a.one("out").expect("--out").to_string();
    let tables = load_tables(&a);
    if let Some(j) = a.one("journal") {
        *JOURNAL.lock().unwrap() = Some(std::fs::File::create(j).expect("journal"));
        JOURNALING.store(true, Relaxed);
    }
    let p = prop(&id);
    let ctx = Arc::new(make_ctx(&a, tables));
    quiet_panics();
    {
        let out = out.clone();
        watchdog(ctx.clone(), Duration::from_secs(a.num("hang", 30)), move |ctx, s| {
            let h = s.hist.lock().unwrap();
            let last = h.2.last().cloned();
            let op = last.as_ref().map(|c| c.op.clone()).unwrap_or_default();
            let mine = ctx.kind == PKind::NoPanic || (ctx.kind == PKind::Family && ctx.wants(&h.0, &op));
            if mine {
                let msg = format!("{} does not return", last.as_ref().map(show).unwrap_or_default());
                let r = json!({"kind": "history", "map": h.0, "table": h.3, "cfg": h.1.as_ref().map(cfg_json),
                    "calls": h.2.iter().map(call_json).collect::<Vec<_>>(), "failure": msg, "failure_kind": "Hang"});
                ctx.violations.lock().unwrap().push(Violation { message: msg, replay: r });
            } else {
                ctx.count("runs cut short by a call that does not return", 1);
            }
            std::fs::write(&out, result_json(ctx).to_string()).unwrap();
            std::process::exit(0);
        });
    }
    match p.kind {
        PKind::Equality => drivers::equality(&ctx),
        PKind::Optional => drivers::optional(&ctx, a.one("opt").expect("--opt")),
        PKind::Iterators => {}
        _ => {
            if matches!(id.as_str(), "G01" | "G02" | "X07") {
                drivers::reinsertions(&ctx);
            }
            if matches!(p.kind, PKind::NoPanic | PKind::Hash) {
                drivers::equality(&ctx);
            }
            let tasks = plan(&ctx);
            run_tasks(&ctx, tasks);
        }
    }
    let n = engine::ADOPTED.load(std::sync::atomic::Ordering::Relaxed);
    if n > 0 {
        ctx.count("calls that led to other legal contents than specified, which is for other properties", n);
    }
    std::fs::write(&out, result_json(&ctx).to_string()).unwrap();
}

fn report(ctx: &Ctx) -> bool {
    let v = ctx.violations.lock().unwrap();
    v.iter().for_each(|v| println!("{}", v.message));
    v.is_empty()
}

fn replay(a: Args) {
    quiet_panics();
    let tables = load_tables(&a);
    let text = std::fs::read_to_string(&a.free[0]).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
    let v = if v.get("replay").is_some() { v["replay"].clone() } else { v };
    new_slot();
    let ok = match v["kind"].as_str() {
        Some("fork") => {
            let i = tables.iter().position(|t| Some(t.name.as_str()) == v["table"].as_str()).expect("the table of the replay");
            let ctx = make_ctx(&a, tables);
            explore::replay_forks(&ctx, i, &v);
            report(&ctx)
        }
        Some("optional") | Some("optional-static") => {
            let ctx = make_ctx(&a, tables);
            drivers::optional(&ctx, a.one("opt").expect("--opt"));
            report(&ctx)
        }
        Some("reinsert") => {
            let ctx = make_ctx(&a, tables);
            drivers::reinsertions(&ctx);
            report(&ctx)
        }
        _ => drivers::replay(&tables, &v),
    };
    std::process::exit(if ok { 0 } else { 1 });
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let a = Args::parse(it);
    // --stack N: on a thread with a stack of N KiB
    let stack = a.num("stack", 8192) as usize;
    let work = move || match cmd.as_str() {
        "run" => run(a),
        "replay" => replay(a),
        "record" => record::record(a),
        _ => {
            eprintln!("usage: harness run|replay|record ...");
            std::process::exit(2);
        }
    };
    let t = std::thread::Builder::new().stack_size(stack * 1024).spawn(work).expect("thread");
    if t.join().is_err() {
        std::process::exit(101);
    }
}
