//! The transition table TLC exported from the specification.
use crate::subj::{Call, Dom};
use crate::val::*;
use std::collections::{HashMap, VecDeque};
use std::io::BufRead;

pub struct Entry {
    pub call: Call,
    /// allowed outcomes: result and state after
    pub outs: Vec<(Val, usize)>,
    /// goes through a known finding: never used in histories
    pub known: bool,
}

pub struct Table {
    pub map: String,
    pub name: String,
    pub dom: Dom,
    pub states: Vec<Val>,
    pub obs: Vec<Val>,
    pub legal: HashMap<Val, usize>,
    pub entries: Vec<Vec<Entry>>,
    index: Vec<HashMap<(String, Val), usize>>,
    /// per state and operation, the entries usable in histories
    pub by_op: Vec<Vec<(String, Vec<usize>)>>,
    pub transitions: usize,
    /// builder path: previous state and entry used
    build: Vec<Option<(usize, usize)>>,
    /// what the known finding shows: (state, [lk, rk]) -> observation
    pub defect: HashMap<(usize, Val), Val>,
    /// == of pairs of states: (specified, known finding)
    pub eq: HashMap<(usize, usize), (bool, bool)>,
    idx: HashMap<Val, usize>,
}

fn set_at(v: Val, idx: &[usize]) -> Val {
    match v {
        L(mut l) => {
            for &i in idx {
                let x = std::mem::replace(&mut l[i], I(0));
                l[i] = x.sorted();
            }
            L(l)
        }
        x => x,
    }
}
pub fn canon_state(v: Val) -> Val {
    set_at(v, &[0, 1, 2])
}
fn canon_group(g: Val) -> Val {
    if g.list().is_empty() {
        g
    } else {
        set_at(g, &[0])
    }
}
/// sort the sets inside a result
pub fn canon_result(map: &str, op: &str, r: Val) -> Val {
    match op {
        "drain" | "drain_filter_forget" | "round_trip" => r.sorted(),
        "retain" | "retain_paired" | "retain_unpaired" => r.sorted(),
        "drain_filter" => set_at(r, &[0, 1]),
        "insert_right" | "remove_right" | "remove" if map == "GroupMap" => canon_group(r),
        "insert_remove" => {
            let l = r.list().clone();
            L(vec![l[0].clone(), canon_group(l[1].clone())])
        }
        _ => r,
    }
}
/// sort the sets inside arguments
pub fn canon_args(op: &str, a: Val) -> Val {
    match op {
        "retain" | "retain_paired" | "retain_unpaired" | "drain_filter" | "drain_filter_forget"
        | "drain_filter_panic" | "retain_panic" | "retain_paired_panic" | "retain_unpaired_panic" => set_at(a, &[0]),
        _ => a,
    }
}
pub fn canon_obs(map: &str, o: Val) -> Val {
    if map == "CycleMap" {
        return set_at(o, &[6, 7, 8]);
    }
    let o = set_at(o, &[6, 7, 8, 9, 10]);
    if map == "GroupMap" {
        let mut l = o.list().clone();
        l[4] = L(l[4].list().iter().map(|g| if g.list().is_empty() { g.clone() } else { set_at(g.clone(), &[0]) }).collect());
        return L(l);
    }
    o
}

/// a line TLC printed with PrintT: a quoted string
pub fn unquote(line: &str) -> Option<String> {
    let b = line.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::with_capacity(b.len());
    let mut it = b.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            out.push(it.next()?);
        } else {
            out.push(c);
        }
    }
    Some(out)
}

/// The hash functions TLC exported ("H" lines): classes of the left and of the right keys.
pub fn hash_functions(path: &str) -> Vec<(Vec<u64>, Vec<u64>)> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot open {path}: {e}"));
    let mut out = vec![];
    for line in text.lines().filter_map(|l| unquote(l.trim_end())) {
        if let Some(body) = line.strip_prefix("H ") {
            let v: (Vec<u64>, Vec<u64>) = serde_json::from_str(body).expect("hash function");
            out.push(v);
        }
    }
    out
}

const BUILDERS: [&str; 3] = ["insert", "insert_left", "insert_right"];

impl Table {
    pub fn load(map: &str, name: &str, path: &str) -> Table {
        let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("cannot open table {path}: {e}"));
        let mut rows: Vec<(bool, Val)> = vec![];
        let mut srows = vec![];
        let mut drows = vec![];
        for line in std::io::BufReader::new(f).lines() {
            let line = line.unwrap();
            let Some(t) = unquote(line.trim_end()) else { continue };
            if t.len() < 2 {
                continue;
            }
            let (tag, body) = t.split_at(2);
            if !matches!(tag, "T " | "X " | "S " | "D ") {
                continue;
            }
            let v = Val::from_json(&serde_json::from_str(body).expect("table line"));
            match tag {
                "T " => rows.push((false, v)),
                "X " => rows.push((true, v)),
                "S " => srows.push(v),
                _ => drows.push(v),
            }
        }
        let mut t = Table {
            map: map.into(),
            name: name.into(),
            dom: Dom { nl: 0, nr: 0 },
            states: vec![],
            obs: vec![],
            legal: HashMap::new(),
            entries: vec![],
            index: vec![],
            by_op: vec![],
            transitions: 0,
            build: vec![],
            defect: HashMap::new(),
            eq: HashMap::new(),
            idx: HashMap::new(),
        };
        let mut idx: HashMap<Val, usize> = HashMap::new();
        srows.sort();
        // the empty state first
        let key = |v: &Val| canon_state(v.at(0).clone());
        srows.sort_by_key(|v| (key(v) != L(vec![L(vec![]), L(vec![]), L(vec![])]), v.clone()));
        for v in srows {
            let st = key(&v);
            if idx.contains_key(&st) {
                continue;
            }
            let o = canon_obs(map, v.at(1).clone());
            t.dom = Dom { nl: o.at(1).list().len() as u32, nr: o.at(2).list().len() as u32 };
            idx.insert(st.clone(), t.states.len());
            t.legal.insert(o.clone(), t.states.len());
            t.states.push(st);
            t.obs.push(o);
        }
        let n = t.states.len();
        assert!(n > 1, "no states in table {path}");
        t.entries = (0..n).map(|_| vec![]).collect();
        t.index = (0..n).map(|_| HashMap::new()).collect();
        // TLC prints transitions in no particular order when it uses several workers
        rows.sort();
        for (known, v) in rows {
            t.transitions += 1;
            let s0 = idx[&canon_state(v.at(0).clone())];
            let s1 = idx[&canon_state(v.at(4).clone())];
            let op = v.at(1).str().to_string();
            let a = canon_args(&op, v.at(2).clone());
            let r = canon_result(map, &op, v.at(3).clone());
            let k = (op.clone(), a.clone());
            let i = match t.index[s0].get(&k) {
                Some(&i) => i,
                None => {
                    t.entries[s0].push(Entry { call: Call { op, a, var: 0 }, outs: vec![], known });
                    let i = t.entries[s0].len() - 1;
                    t.index[s0].insert(k, i);
                    i
                }
            };
            let e = &mut t.entries[s0][i];
            e.known |= known;
            if !e.outs.contains(&(r.clone(), s1)) {
                e.outs.push((r, s1));
            }
        }
        for v in drows {
            let s0 = idx[&canon_state(v.at(0).clone())];
            t.defect.insert((s0, v.at(1).clone()), canon_obs(map, v.at(2).clone()));
        }
        for st in 0..n {
            let mut g: Vec<(String, Vec<usize>)> = vec![];
            for (i, e) in t.entries[st].iter().enumerate() {
                if e.known {
                    continue;
                }
                match g.iter_mut().find(|x| x.0 == e.call.op) {
                    Some(x) => x.1.push(i),
                    None => g.push((e.call.op.clone(), vec![i])),
                }
            }
            t.by_op.push(g);
        }
        // builder paths
        t.build = vec![None; n];
        let mut seen = vec![false; n];
        seen[0] = true;
        let mut q = VecDeque::from([0usize]);
        while let Some(x) = q.pop_front() {
            for (i, e) in t.entries[x].iter().enumerate() {
                if e.known || e.outs.len() != 1 || !BUILDERS.contains(&e.call.op.as_str()) {
                    continue;
                }
                let y = e.outs[0].1;
                if !seen[y] {
                    seen[y] = true;
                    t.build[y] = Some((x, i));
                    q.push_back(y);
                }
            }
        }
        assert!(seen.iter().all(|x| *x), "a state is not reachable by insertions");
        t.idx = idx;
        t
    }
    /// the equality relation TLC exported: for each state, the states equal to it and the
    /// states the known finding makes equal
    pub fn load_eq(&mut self, path: &str) {
        let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("cannot open {path}: {e}"));
        for line in std::io::BufReader::new(f).lines() {
            let line = line.unwrap();
            let Some(t) = unquote(line.trim_end()) else { continue };
            let Some(body) = t.strip_prefix("E ") else { continue };
            let v = Val::from_json(&serde_json::from_str(body).expect("table line"));
            let a = self.idx[&canon_state(v.at(0).clone())];
            let ids = |x: &Val| -> Vec<usize> { x.list().iter().map(|b| self.idx[&canon_state(b.clone())]).collect() };
            let (eq, code) = (ids(v.at(1)), ids(v.at(2)));
            for b in 0..self.states.len() {
                self.eq.insert((a, b), (eq.contains(&b), code.contains(&b)));
            }
        }
        assert_eq!(self.eq.len(), self.states.len() * self.states.len(), "incomplete equality table {path}");
    }
    pub fn entry(&self, st: usize, c: &Call) -> Option<&Entry> {
        // no allocation-free lookup for a pair of owned keys; the clone is cheap enough
        self.index[st].get(&(c.op.clone(), c.a.clone())).map(|&i| &self.entries[st][i])
    }
    /// calls that lead from the empty map to a state, by insertions only
    pub fn path(&self, st: usize) -> Vec<Call> {
        let mut v = vec![];
        let mut x = st;
        while let Some((p, i)) = self.build[x] {
            v.push(self.entries[p][i].call.clone());
            x = p;
        }
        v.reverse();
        v
    }
    /// next entry on a shortest path (over deterministic steps) from each state to a target set
    pub fn route(&self, target: &[bool]) -> Vec<Option<usize>> {
        let n = self.states.len();
        let mut rev: Vec<Vec<(usize, usize)>> = vec![vec![]; n];
        for s in 0..n {
            for (i, e) in self.entries[s].iter().enumerate() {
                if !e.known && e.outs.len() == 1 && e.outs[0].1 != s && !e.call.op.ends_with("_panic") {
                    rev[e.outs[0].1].push((s, i));
                }
            }
        }
        let mut next = vec![None; n];
        let mut seen = target.to_vec();
        let mut q: VecDeque<usize> = (0..n).filter(|&i| target[i]).collect();
        while let Some(x) = q.pop_front() {
            for &(s, i) in &rev[x] {
                if !seen[s] {
                    seen[s] = true;
                    next[s] = Some(i);
                    q.push_back(s);
                }
            }
        }
        next
    }
    pub fn ops(&self) -> Vec<String> {
        let mut v: Vec<String> = self.entries.iter().flatten().map(|e| e.call.op.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
}
