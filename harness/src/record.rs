//! Records what the real maps do on long histories, for TLC to judge (spec/trace).
//!
//! harness record --map MAP --prop ID --seed N --events N [--big N --size N] --out FILE
//! harness record --script FILE --out FILE        the episodes of a script, again
//!
//! One JSON line per call; see spec/trace/TraceCommon.tla for the fields.
use crate::dispatch;
use crate::engine::*;
use crate::item::*;
use crate::props::*;
use crate::subj::*;
use crate::val::*;
use crate::Args;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One line to be: a call on handle h, or new / fork / rebuild / eq / drop.
#[derive(Clone, Debug)]
pub struct Ev {
    pub op: String,
    pub h: usize,
    pub to: usize,
    pub a: Val,
    pub var: u32,
    /// keys to look up afterwards
    pub look: Vec<(u32, u32)>,
    /// show the other iterators too
    pub full: bool,
}

/// Keys of what a map shows
#[derive(Clone, Default, Debug)]
pub struct Shape {
    pub pairs: Vec<(u32, u32)>,
    pub ul: Vec<u32>,
    pub ur: Vec<u32>,
    /// capacities, where they are recorded
    pub cap: (usize, usize),
}
fn key(v: &Val) -> u32 {
    v.at(0).int() as u32
}
impl Shape {
    pub fn of(map: &str, c: &Val) -> Shape {
        let mut s = Shape::default();
        for e in c.list() {
            match map {
                "CycleMap" => s.pairs.push((key(e.at(0)), key(e.at(1)))),
                "GroupMap" => match e.at(0).list().first() {
                    Some(l) => s.pairs.push((key(l), key(e.at(1)))),
                    None => s.ur.push(key(e.at(1))),
                },
                _ => match e.at(0).str() {
                    "B" => s.pairs.push((key(e.at(1)), key(e.at(2)))),
                    "L" => s.ul.push(key(e.at(1))),
                    _ => s.ur.push(key(e.at(1))),
                },
            }
        }
        s
    }
    pub fn size(&self) -> usize {
        self.pairs.len() + self.ul.len() + self.ur.len()
    }
    fn lefts(&self) -> Vec<u32> {
        self.pairs.iter().map(|p| p.0).chain(self.ul.iter().cloned()).collect()
    }
    fn rights(&self) -> Vec<u32> {
        self.pairs.iter().map(|p| p.1).chain(self.ur.iter().cloned()).collect()
    }
}

// ---------------------------------------------------------------- choosing calls

pub struct Gen {
    pub map: String,
    pub rng: Rng,
    pub dom: u32,
    pub target: usize,
    pub ops: Vec<(&'static str, u32)>,
    pub builders: Vec<(&'static str, u32)>,
    pub own: Vec<(&'static str, u32)>,
    pub tag: i64,
    pub left: usize,
    pub forks: bool,
    pub eqs: bool,
    /// initial calls that put many items in, still to be made
    pub fill: u8,
    pub big: bool,
    /// how often to fill it again
    pub again: u32,
    /// 1: the next call is to make a little difference
    pub tweak: u8,
    pub twins: (usize, usize),
    /// much more capacity than there are items
    pub roomy: bool,
    /// how often iterators are looked at, in percent; what they then yield is all that matters
    pub iterate: u64,
    /// how often rounds of calls are repeated, in percent
    pub repeat: u64,
    pub tagged: bool,
}

const CYCLE_OPS: &[(&str, u32)] = &[
    ("insert", 30), ("extend", 4), ("collect", 1), ("remove", 4), ("remove_via_left", 5), ("remove_via_right", 5),
    ("swap_left", 6), ("swap_left_checked", 5), ("swap_left_or_insert", 6), ("swap_right", 6),
    ("swap_right_checked", 5), ("swap_right_or_insert", 6), ("clear", 1), ("drain", 1), ("drain_filter", 3),
    ("drain_filter_forget", 2), ("drain_filter_panic", 2), ("retain", 3), ("retain_panic", 2), ("extend_panic", 2),
    ("deserialize", 1), ("deserialize_bad", 1), ("round_trip", 2), ("clone", 2), ("reserve", 1), ("try_reserve", 1),
    ("try_reserve_huge", 1), ("shrink_to", 1), ("shrink_to_fit", 2),
];
const PARTIAL_OPS: &[(&str, u32)] = &[
    ("insert", 20), ("insert_left", 10), ("insert_right", 10), ("extend", 3), ("extend_opt", 4), ("collect", 1),
    ("collect_opt", 1), ("pair", 10), ("unpair", 5), ("pair_forced", 7), ("pair_forced_remove", 6), ("remove", 4),
    ("remove_left", 4), ("remove_right", 4), ("remove_via_left", 4), ("remove_via_right", 4), ("swap_left", 6),
    ("swap_left_checked", 5), ("swap_left_or_insert", 6), ("swap_right", 6), ("swap_right_checked", 5),
    ("swap_right_or_insert", 6), ("clear", 1), ("drain", 1), ("drain_filter", 3), ("drain_filter_forget", 2),
    ("drain_filter_panic", 2), ("retain", 3), ("retain_paired", 3), ("retain_unpaired", 3), ("retain_panic", 1),
    ("retain_paired_panic", 2), ("retain_unpaired_panic", 2), ("extend_panic", 2), ("clone", 2), ("reserve_left", 1),
    ("reserve_right", 1), ("try_reserve_left", 1), ("try_reserve_right", 1), ("try_reserve_huge", 1),
    ("shrink_to_left", 1), ("shrink_to_right", 1), ("shrink_to_fit", 2),
];
const GROUP_OPS: &[(&str, u32)] = &[
    ("insert", 30), ("insert_left", 12), ("insert_right", 6), ("insert_remove", 7), ("extend", 3), ("extend_opt", 3),
    ("collect", 1), ("collect_opt", 1), ("pair", 10), ("swap_right", 8), ("swap_right_remove", 8), ("remove", 3),
    ("remove_left", 8), ("remove_right", 3), ("clear", 1), ("retain_paired", 4), ("retain_unpaired", 4),
    ("retain_paired_panic", 2), ("retain_unpaired_panic", 2), ("extend_panic", 2), ("clone", 2),
];
fn wipes(op: &str) -> bool {
    matches!(op, "clear" | "drain" | "collect" | "collect_opt" | "deserialize")
}

impl Gen {
    pub fn new(map: &str, prop: &str, seed: u64, big: usize) -> Gen {
        let mut rng = Rng::new(seed);
        let all = match map {
            "CycleMap" => CYCLE_OPS,
            "PartialCycleMap" => PARTIAL_OPS,
            _ => GROUP_OPS,
        };
        let builder = |op: &str| matches!(op, "insert" | "insert_left" | "insert_right" | "extend") || (op == "pair" && map == "PartialCycleMap");
        let family = prop_is_family(prop) && prop != "X09";
        let mut builders: Vec<_> = all.iter().filter(|o| builder(o.0)).cloned().collect();
        let mut own: Vec<_> = all.iter().filter(|o| if family { in_family(prop, map, o.0) } else { true }).cloned().collect();
        // fewer kinds of calls in one life bring other shapes about
        if !family || own.len() > 4 {
            let keep = 25 + rng.below(70) as u64;
            let o: Vec<_> = own.iter().filter(|_| rng.chance(keep)).cloned().collect();
            if !o.is_empty() {
                own = o;
            }
        }
        if prop == "X09" {
            // mostly these, removals, and swaps
            for o in own.iter_mut() {
                if o.0.contains("reserve") || o.0.starts_with("shrink") {
                    o.1 *= 5;
                }
            }
        }
        if rng.chance(30) {
            builders.truncate(1);
        }
        let dom = *rng.pick(&[3u32, 5, 8, 8, 16, 16, 30, 60, 120]);
        let target = (dom as usize * (20 + rng.below(90)) / 100).max(2);
        let fill = dom >= 16 && rng.chance(60);
        let (mut dom, mut target, mut fill) = (dom, target, fill);
        if prop == "X09" && rng.chance(60) {
            // nearly full tables, where erased items leave tombstones
            target = *rng.pick(&[13, 14, 26, 27, 28, 54, 56]);
            dom = target as u32 * 2;
            fill = rng.chance(50);
        }
        let mut n = match dom {
            0..=8 => 90,
            9..=30 => 120,
            _ => 160,
        };
        if big > 0 {
            // a short life of a big map
            target = big;
            if rng.chance(if prop == "X05" { 65 } else { 40 }) {
                // the tables are full
                target = 7;
                while target < big {
                    target *= 2;
                }
            }
            dom = (target + rng.below(target)) as u32;
            fill = true;
            n = 24;
        }
        let rng_repeat = rng.below(3);
        Gen {
            map: map.into(), rng, dom, target, ops: all.to_vec(), builders, own, tag: 0, left: n,
            forks: prop == "X05" || prop == "X02", eqs: prop == "X02", fill: if fill { 2 } else { 0 }, again: if big > 0 && matches!(prop, "C05" | "P06" | "G05" | "X08") { 3 } else { 0 }, big: big > 0, tweak: 0, twins: (0, 0), roomy: prop == "X09",
            iterate: match prop {
                "X03" => 35,
                "X01" | "X07" => 5,
                _ => 0,
            },
            repeat: if matches!(prop, "X03" | "X09" | "X06") || rng_repeat > 0 { 0 } else { 3 },
            tagged: prop != "X03" && prop != "X09",
        }
    }
    fn pick(v: &[(&'static str, u32)], rng: &mut Rng) -> &'static str {
        let total: u32 = v.iter().map(|x| x.1).sum();
        let mut k = rng.below(total as usize) as u32;
        for (op, w) in v {
            if k < *w {
                return op;
            }
            k -= w;
        }
        v[0].0
    }
    fn key(&mut self) -> u32 {
        1 + self.rng.below(self.dom as usize) as u32
    }
    fn from(&mut self, v: &[u32], pct: u64) -> u32 {
        if !v.is_empty() && self.rng.chance(pct) { *self.rng.pick(v) } else { self.key() }
    }
    fn l(&mut self, s: &Shape, pct: u64) -> u32 {
        let v = if self.rng.chance(30) && !s.ul.is_empty() { s.ul.clone() } else { s.lefts() };
        self.from(&v, pct)
    }
    fn r(&mut self, s: &Shape, pct: u64) -> u32 {
        let v = if self.rng.chance(30) && !s.ur.is_empty() { s.ur.clone() } else { s.rights() };
        self.from(&v, pct)
    }
    fn it(&mut self, k: u32) -> Val {
        self.tag += self.tagged as i64;
        L(vec![I(k as i64), I(self.tag)])
    }
    fn iterate(&mut self, s: &Shape) -> (String, Val) {
        if self.map != "GroupMap" && self.rng.chance(12) {
            if self.rng.chance(40) {
                return ("drain_steps".into(), L(vec![]));
            }
            let all = self.keyed(s, "drain_filter");
            let p = *self.rng.pick(&[0u64, 10, 30, 60, 100]);
            return ("drain_steps".into(), L(vec![L(all.into_iter().filter(|_| self.rng.chance(p)).collect())]));
        }
        let kinds: &[&str] = match self.map.as_str() {
            "CycleMap" => &["map", "iter", "il", "ir"],
            "PartialCycleMap" => &["map", "iter", "ip", "iu", "il", "ir"],
            _ => &["map", "iter", "ip", "iu", "il", "ir", "gli", "gli"],
        };
        let kind = *self.rng.pick(kinds);
        let key = if kind == "gli" { self.r(s, 90) } else { 0 };
        ("iterate".into(), L(vec![crate::val::s(kind), I(key as i64)]))
    }
    /// a left and a right key: often paired with each other, often in different pairs
    fn two(&mut self, s: &Shape, together: u64) -> (u32, u32) {
        if !s.pairs.is_empty() && self.rng.chance(together) {
            *self.rng.pick(&s.pairs)
        } else {
            (self.l(s, 70), self.r(s, 70))
        }
    }
    fn partner(&mut self, s: &Shape, k: u32, left: bool) -> u32 {
        let p: Vec<u32> = s.pairs.iter().filter(|p| if left { p.0 == k } else { p.1 == k }).map(|p| if left { p.1 } else { p.0 }).collect();
        if !p.is_empty() && self.rng.chance(75) {
            *self.rng.pick(&p)
        } else if left {
            self.r(s, 70)
        } else {
            self.l(s, 70)
        }
    }
    /// keyed entries, as closures are told about them
    fn keyed(&self, s: &Shape, op: &str) -> Vec<Val> {
        let k = |x: u32| I(x as i64);
        let pair = |p: &(u32, u32)| L(vec![k(p.0), k(p.1)]);
        if self.map == "PartialCycleMap" {
            let b = s.pairs.iter().map(|p| L(vec![crate::val::s("B"), k(p.0), k(p.1)]));
            let l = s.ul.iter().map(|x| L(vec![crate::val::s("L"), k(*x)]));
            let r = s.ur.iter().map(|x| L(vec![crate::val::s("R"), k(*x)]));
            if op.starts_with("retain_paired") {
                b.collect()
            } else if op.starts_with("retain_unpaired") {
                l.chain(r).collect()
            } else if op.starts_with("retain") {
                b.chain(l).collect()
            } else {
                b.chain(l).chain(r).collect()
            }
        } else if op.starts_with("retain_unpaired") {
            s.ur.iter().map(|x| k(*x)).collect()
        } else {
            s.pairs.iter().map(pair).collect()
        }
    }
    fn selection(&mut self, all: &[Val], keep_on_true: bool) -> Vec<Val> {
        if all.len() > 20 && self.rng.chance(35) {
            // all but a few, or only a few: long runs of entries answered alike
            let few: Vec<usize> = (0..1 + self.rng.below(3)).map(|_| self.rng.below(all.len())).collect();
            let rest = keep_on_true != self.rng.chance(25);
            return all.iter().enumerate().filter(|(i, _)| few.contains(i) != rest).map(|(_, x)| x.clone()).collect();
        }
        let p = *self.rng.pick(&[0u64, 10, 10, 30, 50, 90, 100]);
        let p = if keep_on_true && self.rng.chance(70) { 100 - p.min(30) } else { p };
        all.iter().filter(|_| self.rng.chance(p)).cloned().collect()
    }
    /// the length of a sequence of entries to insert
    fn length(&mut self) -> usize {
        match self.rng.below(20) {
            0..=11 => self.rng.below(7),
            12..=17 => self.rng.below(if self.big && self.target > 400 { 12 } else { 40 }),
            _ => self.rng.below(if !self.big { 200 } else if self.target > 400 { 30 } else { 60 }),
        }
    }
    /// the next entry of a sequence: of items there are, of new ones, or of items of entries before
    fn again(&mut self, s: &Shape, used: &mut Vec<(u32, u32)>) -> (u32, u32) {
        let (mut l, mut r) = (self.l(s, 40), self.r(s, 40));
        if !used.is_empty() && self.rng.chance(30) {
            let i = self.rng.below(used.len());
            let j = self.rng.below(used.len());
            match self.rng.below(3) {
                0 => l = used[i].0,
                1 => r = used[i].1,
                _ => (l, r) = (used[i].0, used[j].1),
            }
        }
        used.push((l, r));
        (l, r)
    }
    fn pair_seq(&mut self, s: &Shape, empty: bool) -> Option<Val> {
        if self.big && empty && self.rng.chance(70) {
            let n = self.target - self.rng.below(self.target / 4);
            return Some(L(self.separate(n)));
        }
        let n = self.length();
        let mut group: BTreeMap<u32, u32> = if empty { BTreeMap::new() } else { s.pairs.iter().cloned().collect() };
        let mut out = vec![];
        let mut used = vec![];
        for _ in 0..n {
            let (l, r) = self.again(s, &mut used);
            if self.map == "GroupMap" {
                if group.get(&l) == Some(&r) {
                    continue;
                }
                group.insert(l, r);
            }
            out.push(L(vec![self.it(l), self.it(r)]));
        }
        Some(L(out))
    }
    /// keys 1..=dom in some order
    fn shuffled(&mut self) -> Vec<u32> {
        let mut v: Vec<u32> = (1..=self.dom).collect();
        for i in (1..v.len()).rev() {
            v.swap(i, self.rng.below(i + 1));
        }
        v
    }
    /// pairs none of which shares an item with another one
    fn separate(&mut self, n: usize) -> Vec<Val> {
        let (l, r) = (self.shuffled(), self.shuffled());
        l.into_iter().zip(r).take(n).map(|(l, r)| L(vec![self.it(l), self.it(r)])).collect()
    }
    /// a call that puts many items into a map that has few
    fn many(&mut self, s: &Shape) -> (String, Val) {
        let n = self.target;
        if self.map == "GroupMap" {
            self.fill -= 1;
            if self.fill == 1 {
                // right items first
                let groups = match self.rng.below(100) {
                    0..=24 => n,
                    25..=64 => 1,
                    _ => 2 + self.rng.below(20),
                };
                let r = self.shuffled();
                let v = r.into_iter().take(groups).map(|r| L(vec![L(vec![]), self.it(r)])).collect();
                return ("extend_opt".into(), L(vec![L(v)]));
            }
            let l = self.shuffled();
            let rights = s.rights();
            let v = l.into_iter().take(n).map(|l| { let r = *self.rng.pick(&rights); L(vec![self.it(l), self.it(r)]) }).collect();
            return ("extend".into(), L(vec![L(v)]));
        }
        self.fill = 0;
        let v = self.separate(n);
        if self.map == "PartialCycleMap" && self.rng.chance(60) {
            let paired = 30 + self.rng.below(60) as u64;
            let v = v.into_iter().map(|p| {
                let t = |x: &str| crate::val::s(x);
                let p = p.list().to_vec();
                if self.rng.chance(paired) {
                    L(vec![t("B"), p[0].clone(), p[1].clone()])
                } else if self.rng.chance(50) {
                    L(vec![t("L"), p[0].clone()])
                } else {
                    L(vec![t("R"), p[1].clone()])
                }
            }).collect();
            return ("extend_opt".into(), L(vec![L(v)]));
        }
        ("extend".into(), L(vec![L(v)]))
    }
    fn opt_seq(&mut self, s: &Shape, empty: bool) -> Val {
        let n = self.length();
        let mut group: BTreeMap<u32, u32> = if empty { BTreeMap::new() } else { s.pairs.iter().cloned().collect() };
        let mut out = vec![];
        let mut used = vec![];
        for _ in 0..n {
            let (l, r) = self.again(s, &mut used);
            let (li, ri) = (self.it(l), self.it(r));
            if self.map == "GroupMap" {
                if self.rng.chance(35) {
                    group.retain(|_, x| *x != r);
                    out.push(L(vec![L(vec![]), ri]));
                } else if group.get(&l) != Some(&r) {
                    group.insert(l, r);
                    out.push(L(vec![L(vec![li]), ri]));
                }
            } else {
                let t = |x: &str| crate::val::s(x);
                out.push(match self.rng.below(5) {
                    0 => L(vec![t("L"), li]),
                    1 => L(vec![t("R"), ri]),
                    2 if self.rng.chance(50) => L(vec![t("N")]),
                    _ => L(vec![t("B"), li, ri]),
                });
            }
        }
        L(out)
    }
    /// calls that lead back to where they began, and how often to make them: wear that the
    /// contents do not show
    fn round(&mut self, s: &Shape) -> Vec<Val> {
        let f = self.dom + 1 + self.rng.below(3) as u32;
        let k = |x: u32| I(x as i64);
        let it = |x: u32| L(vec![I(x as i64), I(0)]);
        let call = |op: &str, a: Vec<Val>| L(vec![crate::val::s(op), L(a)]);
        let n = match self.rng.below(100) {
            0..=29 => 2 + self.rng.below(5),
            30..=54 => 20 + self.rng.below(60),
            55..=84 => 250 - self.rng.below(60),
            _ => 65_530 - self.rng.below(60),
        };
        let mut calls = vec![];
        match (self.map.as_str(), self.rng.below(8)) {
            ("CycleMap", i) => {
                calls.push(call("insert", vec![it(f), it(f)]));
                match i {
                    0 | 1 => calls.push(call("remove", vec![k(f), k(f)])),
                    2 | 3 => calls.push(call("remove_via_left", vec![k(f)])),
                    4 | 5 => calls.push(call("remove_via_right", vec![k(f)])),
                    6 => {
                        calls.push(call("swap_left", vec![k(f), it(f + 1)]));
                        calls.push(call("swap_right", vec![k(f), it(f + 1)]));
                        calls.push(call("remove", vec![k(f + 1), k(f + 1)]));
                    }
                    _ => {
                        calls.push(call("swap_left_or_insert", vec![k(f + 1), it(f + 2), it(f + 1)]));
                        calls.push(call("insert", vec![it(f), it(f + 1)]));
                        calls.push(call("remove_via_left", vec![k(f)]));
                    }
                }
            }
            ("PartialCycleMap", i) => match i {
                0 | 1 if !s.pairs.is_empty() => {
                    let (l, r) = *self.rng.pick(&s.pairs);
                    calls.push(call("unpair", vec![k(l), k(r)]));
                    calls.push(call(if i == 0 { "pair" } else { "pair_forced" }, vec![k(l), k(r)]));
                }
                2 if !s.pairs.is_empty() => {
                    let (l, r) = *self.rng.pick(&s.pairs);
                    calls.push(call("insert_right", vec![it(f)]));
                    calls.push(call("pair_forced", vec![k(l), k(f)]));
                    calls.push(call("pair_forced", vec![k(l), k(r)]));
                    calls.push(call("remove_right", vec![k(f)]));
                }
                3 if !s.pairs.is_empty() => {
                    let (l, r) = *self.rng.pick(&s.pairs);
                    calls.push(call("insert_left", vec![it(f)]));
                    calls.push(call("pair_forced", vec![k(f), k(r)]));
                    calls.push(call("remove_left", vec![k(f)]));
                    calls.push(call("pair", vec![k(l), k(r)]));
                }
                4 => {
                    calls.push(call("insert_left", vec![it(f)]));
                    calls.push(call("insert_right", vec![it(f)]));
                    calls.push(call("pair", vec![k(f), k(f)]));
                    calls.push(call("remove_left", vec![k(f)]));
                    calls.push(call("remove_right", vec![k(f)]));
                }
                _ => {
                    calls.push(call("insert", vec![it(f), it(f)]));
                    calls.push(match i {
                        5 => call("remove_via_left", vec![k(f)]),
                        6 => call("remove_via_right", vec![k(f)]),
                        _ => call("remove", vec![k(f), k(f)]),
                    });
                }
            },
            (_, i) => {
                let r = if s.pairs.is_empty() && s.ur.is_empty() { 0 } else { let v = s.rights(); *self.rng.pick(&v) };
                match i {
                    0 | 1 if r > 0 => {
                        calls.push(call("insert_left", vec![it(f), k(r)]));
                        calls.push(call("remove_left", vec![k(f)]));
                    }
                    2 | 3 if !s.pairs.is_empty() => {
                        let (l, r2) = *self.rng.pick(&s.pairs);
                        calls.push(call("pair", vec![k(l), k(r)]));
                        calls.push(call("pair", vec![k(l), k(r2)]));
                    }
                    4 => {
                        calls.push(call("insert_right", vec![it(f)]));
                        calls.push(call("insert_left", vec![it(f), k(f)]));
                        calls.push(call("insert_left", vec![it(f + 1), k(f)]));
                        calls.push(call("remove_left", vec![k(f)]));
                        calls.push(call("remove_right", vec![k(f)]));
                    }
                    5 => {
                        calls.push(call("insert", vec![it(f), it(f)]));
                        calls.push(call("swap_right_remove", vec![k(f), it(f + 1)]));
                        calls.push(call("remove_right", vec![k(f + 1)]));
                    }
                    6 => {
                        calls.push(call("insert_remove", vec![it(f), it(f)]));
                        calls.push(call("remove_left", vec![k(f)]));
                        calls.push(call("remove_right", vec![k(f)]));
                    }
                    _ => {
                        calls.push(call("insert", vec![it(f), it(f)]));
                        calls.push(call("remove", vec![k(f), k(f)]));
                    }
                }
            }
        }
        vec![I(n as i64), L(calls)]
    }
    /// arguments of a call, or None if there are none worth making
    /// a call that makes a little difference to a big map
    fn little(&mut self, s: &Shape) -> (String, Val) {
        let k = |x: u32| I(x as i64);
        let group = self.map == "GroupMap";
        let pairs: Vec<(u32, u32)> = s.pairs.iter().cloned().collect();
        if !pairs.is_empty() {
            let (l, r) = *self.rng.pick(&pairs);
            let (_, r2) = *self.rng.pick(&pairs);
            let l2 = (1..=self.dom + 1).find(|x| !s.ul.contains(x) && !pairs.iter().any(|p| p.0 == *x)).unwrap();
            let x2 = (1..=self.dom + 1).find(|x| !s.ur.contains(x) && !pairs.iter().any(|p| p.1 == *x)).unwrap();
            match (group, self.rng.below(if self.map == "CycleMap" { 2 } else { 4 })) {
                (true, 0..=1) if r != r2 => return ("pair".into(), L(vec![k(l), k(r2)])),
                (false, 0) => return ("swap_left".into(), L(vec![k(l), self.it(l2)])),
                (_, 0..=1) => return ("swap_right".into(), L(vec![k(r), self.it(x2)])),
                (false, 2) => return ("unpair".into(), L(vec![k(l), k(r)])),
                (false, _) => return ("pair_forced".into(), L(vec![k(l), k(r2)])),
                (true, _) => return ("remove_left".into(), L(vec![k(l)])),
            }
        }
        ("clear".into(), L(vec![]))
    }

    fn args(&mut self, op: &str, s: &Shape) -> Option<Val> {
        let k = |x: u32| I(x as i64);
        let group = self.map == "GroupMap";
        Some(L(match op {
            "insert" | "insert_remove" => {
                let grow = s.size() < self.target;
                let (l, r) = if self.rng.chance(if group { 0 } else { 15 }) {
                    self.two(s, 60)
                } else {
                    (self.l(s, if grow { 15 } else { 50 }), self.r(s, if group { 60 } else if grow { 15 } else { 50 }))
                };
                if group && op == "insert" && s.pairs.contains(&(l, r)) {
                    return None;
                }
                vec![self.it(l), self.it(r)]
            }
            "insert_left" => {
                let l = self.l(s, 30);
                if group {
                    let r = self.r(s, 85);
                    vec![self.it(l), k(r)]
                } else {
                    vec![self.it(l)]
                }
            }
            "insert_right" => {
                let r = self.r(s, 30);
                vec![self.it(r)]
            }
            "remove" | "unpair" => {
                let (l, r) = self.two(s, 65);
                vec![k(l), k(r)]
            }
            "pair" | "pair_forced" | "pair_forced_remove" => {
                let (l, r) = self.two(s, 15);
                vec![k(l), k(r)]
            }
            "remove_left" | "remove_via_left" => vec![k(self.l(s, 85))],
            "remove_right" | "remove_via_right" => vec![k(self.r(s, 85))],
            "swap_left" => {
                let (o, n) = (self.l(s, 85), self.l(s, 45));
                let n = if self.rng.chance(10) { o } else { n };
                vec![k(o), self.it(n)]
            }
            "swap_right" | "swap_right_remove" => {
                let (o, n) = (self.r(s, 85), self.r(s, 45));
                let n = if self.rng.chance(10) { o } else { n };
                vec![k(o), self.it(n)]
            }
            "swap_left_checked" => {
                let (o, n) = (self.l(s, 90), self.l(s, 45));
                let e = self.partner(s, o, true);
                let n = if self.rng.chance(10) { o } else { n };
                vec![k(o), k(e), self.it(n)]
            }
            "swap_right_checked" => {
                let (o, n) = (self.r(s, 90), self.r(s, 45));
                let e = self.partner(s, o, false);
                let n = if self.rng.chance(10) { o } else { n };
                vec![k(o), k(e), self.it(n)]
            }
            "swap_left_or_insert" => {
                let (o, n) = (self.l(s, 45), self.l(s, 50));
                let r = if self.rng.chance(30) { self.partner(s, n, true) } else { self.r(s, 50) };
                vec![k(o), self.it(n), self.it(r)]
            }
            "swap_right_or_insert" => {
                let (o, n) = (self.r(s, 45), self.r(s, 50));
                let l = if self.rng.chance(30) { self.partner(s, n, false) } else { self.l(s, 50) };
                vec![k(o), self.it(n), self.it(l)]
            }
            "clear" | "round_trip" | "clone" | "try_reserve_huge" | "shrink_to_fit" => vec![],
            "drain" => vec![I(self.rng.below(s.size() + 2) as i64)],
            "drain_filter" | "drain_filter_forget" => {
                let all = self.keyed(s, op);
                let sel = self.selection(&all, false);
                let n = self.rng.below(sel.len() + 2);
                vec![L(sel), I(n as i64)]
            }
            "retain" | "retain_paired" | "retain_unpaired" => {
                let all = self.keyed(s, op);
                vec![L(self.selection(&all, self.map == "CycleMap"))]
            }
            "retain_panic" | "retain_paired_panic" | "retain_unpaired_panic" | "drain_filter_panic" => {
                let all = self.keyed(s, op);
                if all.is_empty() {
                    return None;
                }
                let x = self.rng.pick(&all).clone();
                let sel = self.selection(&all, self.map == "CycleMap" && op == "retain_panic");
                vec![L(sel.into_iter().filter(|y| *y != x).collect()), x]
            }
            "repeat" => self.round(s),
            "extend" => vec![self.pair_seq(s, false)?],
            "collect" | "deserialize" => vec![self.pair_seq(s, true)?],
            "extend_panic" if self.map == "CycleMap" => vec![self.pair_seq(s, false)?],
            "extend_opt" | "extend_panic" => vec![self.opt_seq(s, false)],
            "collect_opt" => vec![self.opt_seq(s, true)],
            "deserialize_bad" => vec![I(self.rng.below(8) as i64)],
            "reserve" | "try_reserve" | "shrink_to" | "reserve_left" | "reserve_right" | "try_reserve_left"
            | "try_reserve_right" | "shrink_to_left" | "shrink_to_right" => {
                let n = *self.rng.pick(&[0i64, 1, 5, 40, 150]);
                // near what there is room for now
                let (sl, sr) = (s.pairs.len() + s.ul.len(), s.pairs.len() + s.ur.len());
                let room = if self.rng.chance(50) { s.cap.0.saturating_sub(sl) } else { s.cap.1.saturating_sub(sr) } as i64;
                if op.contains("reserve") && (1..500).contains(&room) && self.rng.chance(50) {
                    return Some(L(vec![I(room + self.rng.below(3) as i64)]));
                }
                if self.roomy && self.rng.chance(6) {
                    return Some(L(vec![I(120_000 + self.rng.below(100_000) as i64)]));
                }
                if self.roomy && self.rng.chance(15) {
                    return Some(L(vec![I(1000 + self.rng.below(4000) as i64)]));
                }
                vec![I(if self.rng.chance(50) { self.rng.below(30) as i64 } else { n })]
            }
            _ => return None,
        }))
    }
}

fn ints(v: &Val, out: &mut BTreeSet<u32>) {
    match v {
        I(i) if *i > 0 => {
            out.insert(*i as u32);
        }
        L(x) => x.iter().for_each(|y| ints(y, out)),
        _ => {}
    }
}

/// not the capacity of a table without tombstones?
fn odd_capacity(c: usize) -> bool {
    !(c == 0 || c == 3 || c == 7 || c % 7 == 0 && (c / 7).is_power_of_two())
}

pub trait Source {
    /// the next event, given what the handles show
    fn next(&mut self, live: &BTreeMap<usize, Shape>) -> Option<Ev>;
}

impl Source for Gen {
    fn next(&mut self, live: &BTreeMap<usize, Shape>) -> Option<Ev> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let hs: Vec<usize> = live.keys().cloned().collect();
        let h = *self.rng.pick(&hs);
        let s = live[&h].clone();
        let fresh = live.keys().max().unwrap() + 1;
        let mut ev = Ev { op: String::new(), h, to: 0, a: L(vec![]), var: self.rng.next() as u32 % 1000, look: vec![], full: self.rng.chance(25) || s.size() < 6 };
        if self.fill == 0 && (self.tweak > 0 || self.big && self.eqs && self.rng.chance(30)) {
            // twins that differ in little, compared
            let (one, other) = self.twins;
            match self.tweak {
                0 => {
                    ev.op = "fork".into();
                    ev.to = fresh;
                    self.twins = (h, fresh);
                    self.tweak = 1;
                }
                1 => {
                    (ev.op, ev.a) = self.little(&live[&other]);
                    ev.h = other;
                    self.tweak = 2;
                }
                2 => {
                    ev.op = "eq".into();
                    ev.h = one;
                    ev.to = other;
                    self.tweak = 3;
                    return Some(ev);
                }
                _ => {
                    ev.op = "drop".into();
                    ev.h = if self.rng.chance(50) { one } else { other };
                    self.tweak = 0;
                    return Some(ev);
                }
            }
        } else if self.forks && self.fill == 0 {
            let roll = if self.big && hs.len() == 1 && self.left > 20 && self.rng.chance(80) { 0 } else { self.rng.below(100) };
            if hs.len() < 4 && roll < 10 {
                ev.op = if self.eqs && self.rng.chance(50) { "rebuild".into() } else { "fork".into() };
                ev.to = fresh;
            } else if hs.len() > 1 && roll < 14 {
                ev.op = "drop".into();
                return Some(ev);
            } else if self.eqs && hs.len() > 1 && roll < 34 {
                ev.op = "eq".into();
                ev.to = *self.rng.pick(&hs);
                return Some(ev);
            }
        }
        if self.fill == 0 && self.rng.chance(self.iterate) {
            (ev.op, ev.a) = self.iterate(&s);
            if ev.op == "iterate" {
                return Some(ev);
            }
        }
        if self.fill == 0 && self.again > 0 && s.size() < self.target / 30 {
            if s.size() == 0 || self.target < 400 {
                self.fill = 2;
                self.again -= 1;
            } else {
                // the specification puts many items into an empty map faster
                ev.op = "clear".into();
            }
        }
        if self.fill > 0 {
            (ev.op, ev.a) = self.many(&s);
        }
        if ev.op.is_empty() && (odd_capacity(s.cap.0) || odd_capacity(s.cap.1)) && self.rng.chance(15) {
            // erased items take up room: ask for a little more than there is
            let ops: Vec<&'static str> = self.ops.iter().map(|o| o.0).filter(|o| o.contains("reserve") && *o != "try_reserve_huge").collect();
            if !ops.is_empty() {
                let op = *self.rng.pick(&ops);
                if let Some(a) = self.args(op, &s) {
                    ev.op = op.into();
                    ev.a = a;
                }
            }
        }
        if ev.op.is_empty() && self.rng.chance(self.repeat) {
            ev.op = "repeat".into();
            ev.a = self.args("repeat", &s).unwrap();
        }
        if ev.op.is_empty() {
            for _ in 0..50 {
                let build = if s.size() < self.target { 60 } else { 25 };
                let op = if self.rng.chance(build) { Gen::pick(&self.builders, &mut self.rng) } else { Gen::pick(&self.own, &mut self.rng) };
                if wipes(op) && self.own.len() > 4 && self.rng.chance(60) {
                    continue;
                }
                if let Some(a) = self.args(op, &s) {
                    ev.op = op.into();
                    ev.a = a;
                    break;
                }
            }
            if ev.op.is_empty() {
                return None;
            }
        }
        let mut keys: BTreeSet<u32> = BTreeSet::new();
        ints(&ev.a, &mut keys);
        let keys: Vec<u32> = keys.into_iter().filter(|k| *k <= self.dom).collect();
        for i in 0..3 {
            let l = if i < 2 { self.from(&keys, 80) } else { self.l(&s, 50) };
            let r = if i == 0 { self.partner(&s, l, true) } else { self.from(&keys, 60) };
            ev.look.push((l, r));
        }
        Some(ev)
    }
}

pub struct Script {
    pub evs: std::vec::IntoIter<Ev>,
}
impl Source for Script {
    fn next(&mut self, live: &BTreeMap<usize, Shape>) -> Option<Ev> {
        loop {
            let e = self.evs.next()?;
            if e.op == "eq" && !live.contains_key(&e.to) || !live.contains_key(&e.h) {
                continue;
            }
            return Some(e);
        }
    }
}
pub fn ev_json(e: &Ev) -> Value {
    json!({"op": e.op, "h": e.h, "to": e.to, "a": e.a.to_json(), "var": e.var, "look": e.look, "full": e.full})
}
pub fn ev_from(v: &Value) -> Ev {
    Ev {
        op: v["op"].as_str().unwrap().into(),
        h: v["h"].as_u64().unwrap_or(0) as usize,
        to: v["to"].as_u64().unwrap_or(0) as usize,
        a: Val::from_json(&v["a"]),
        var: v["var"].as_u64().unwrap_or(0) as u32,
        look: serde_json::from_value(v["look"].clone()).unwrap_or_default(),
        full: v["full"].as_bool().unwrap_or(true),
    }
}

// ---------------------------------------------------------------- recording

/// does a value hold text the specification would not understand?
fn strange(v: &Val, top: bool) -> bool {
    match v {
        S(x) => top || !matches!(x.as_str(), "N" | "L" | "R" | "B" | "ok" | "err" | "panic"),
        L(v) => v.iter().any(|x| strange(x, false)),
        _ => false,
    }
}

struct Seen {
    c: Val,
    s: Val,
    q: Val,
    x: Val,
    bad: bool,
}
fn look<T: Subject>(m: &T, keys: &[(u32, u32)], full: bool) -> Seen {
    let c = m.contents();
    let q: Vec<Val> = keys.iter().map(|(l, r)| m.lookups(*l, *r)).collect();
    let x = if full { m.others() } else { vec![] };
    let q = L(q);
    let bad = strange(&q, true) || strange(&c, true);
    Seen { c, s: m.sizes(), q: if bad { L(vec![]) } else { q }, x: L(x), bad }
}

const HUGE: usize = 1_000_000;
fn hint_val(h: (usize, Option<usize>)) -> Val {
    let n = |x: usize| I(x.min(HUGE) as i64);
    L(vec![n(h.0), L(h.1.iter().map(|x| n(*x)).collect())])
}
fn step(what: &str, it: usize, v: Val) -> Val {
    L(vec![s(what), I(it as i64), v])
}

/// The entries that Debug output lists: [entries], or [] if it cannot be understood. Items show
/// as \u{ab}side key tag\u{bb}.
pub fn listed(map: &str, kind: &str, text: &str) -> Val {
    fn parse(map: &str, kind: &str, text: &str) -> Option<Vec<Val>> {
        let t = text.trim();
        let (a, b) = (t.find(['[', '{'])?, t.rfind([']', '}'])?);
        let t = t.get(a + 1..b)?;
        let mut parts = vec![String::new()];
        let mut depth = 0;
        for c in t.chars() {
            depth += match c {
                '(' | '[' | '{' => 1,
                ')' | ']' | '}' => -1,
                _ => 0,
            };
            if c == ',' && depth == 0 {
                parts.push(String::new());
            } else {
                parts.last_mut()?.push(c);
            }
        }
        let mut out = vec![];
        for (n, p) in parts.iter().enumerate() {
            let mut items = vec![];
            for x in p.split('\u{ab}').skip(1) {
                let v: Vec<i64> = x.split('\u{bb}').next()?.split(' ').map(|n| n.parse().ok()).collect::<Option<_>>()?;
                items.push((*v.first()?, L(vec![I(*v.get(1)?), I(*v.get(2)?)])));
            }
            let sides: Vec<i64> = items.iter().map(|i| i.0).collect();
            let it: Vec<Val> = items.into_iter().map(|i| i.1).collect();
            let whole = matches!(kind, "map" | "iter");
            out.push(match (map, sides.as_slice()) {
                (_, []) if n + 1 == parts.len() && p.trim().is_empty() => continue,
                (_, [0]) if kind == "il" || kind == "gli" => it[0].clone(),
                (_, [1]) if kind == "ir" || kind == "iu" && map == "GroupMap" => it[0].clone(),
                ("CycleMap", [0, 1]) if whole => L(it),
                (_, [0, 1]) if kind == "ip" => L(it),
                ("PartialCycleMap", [0, 1]) if whole => L(vec![s("B"), it[0].clone(), it[1].clone()]),
                ("PartialCycleMap", [0]) if whole || kind == "iu" => L(vec![s("L"), it[0].clone()]),
                ("PartialCycleMap", [1]) if whole || kind == "iu" => L(vec![s("R"), it[0].clone()]),
                ("GroupMap", [0, 1]) if whole => L(vec![L(vec![it[0].clone()]), it[1].clone()]),
                ("GroupMap", [1]) if whole => L(vec![L(vec![]), it[0].clone()]),
                _ => return None,
            });
        }
        Some(out)
    }
    L(parse(map, kind, text).map(L).into_iter().collect())
}

/// Open an iterator and step through it and its clones, to the end and past it; `var` decides how.
fn iterate<T: Subject>(map: &str, m: &T, a: &Val, var: u32) -> (bool, Vec<Val>) {
    let (kind, key) = (a.at(0).str(), a.at(1).int() as u32);
    let mut out = vec![];
    if kind == "map" {
        for pretty in [false, true] {
            out.push(step("list", 1, listed(map, kind, &m.debug(pretty))));
        }
        return (true, out);
    }
    let Some(first) = m.open(kind, key) else { return (false, out) };
    let mut rng = Rng::new(var as u64 * 7919 + 13);
    let total: usize = m.sizes().list().iter().filter_map(|v| if let I(n) = v { Some(*n as usize) } else { None }).sum();
    let mut its = vec![first];
    let mut lists = 3;
    let ask = |out: &mut Vec<Val>, it: &Box<dyn It + '_>, i: usize| {
        out.push(step("hint", i + 1, hint_val(it.hint())));
        if let Some(n) = it.len() {
            out.push(step("len", i + 1, I(n.min(HUGE) as i64)));
        }
    };
    let advance = |out: &mut Vec<Val>, it: &mut Box<dyn It + '_>, i: usize| {
        let x = it.next();
        let some = x.is_some();
        out.push(step("next", i + 1, L(x.into_iter().collect())));
        some
    };
    ask(&mut out, &its[0], 0);
    if rng.chance(60) {
        for _ in 0..rng.below(total + 2) {
            advance(&mut out, &mut its[0], 0);
        }
    }
    for _ in 0..rng.below(30) {
        let i = rng.below(its.len());
        match rng.below(16) {
            0..=5 => {
                advance(&mut out, &mut its[i], i);
            }
            6 | 7 => ask(&mut out, &its[i], i),
            8 if its.len() < 3 => {
                if let Some(c) = its[i].dup() {
                    out.push(step("dup", i + 1, L(vec![])));
                    its.push(c);
                }
            }
            9 if lists > 0 => {
                if let Some(t) = its[i].debug(rng.chance(30)) {
                    out.push(step("list", i + 1, listed(map, kind, &t)));
                    lists -= 1;
                }
            }
            10 if lists > 0 => {
                out.push(step("list", i + 1, L(vec![L(its[i].folded(rng.below(6) as u32))])));
                lists -= 1;
            }
            11 => out.push(step("count", i + 1, I(its[i].counted() as i64))),
            12 => out.push(step("last", i + 1, L(its[i].last().into_iter().collect()))),
            13 | 14 => {
                let k = if rng.chance(30) { rng.below(total + 3) } else { rng.below(3) };
                let x = its[i].nth(k);
                out.push(step("nth", i + 1, L(vec![I(k as i64), L(x.into_iter().collect())])));
            }
            15 => {
                let k = if rng.chance(30) { 1 + rng.below(total + 3) } else { 1 + rng.below(3) };
                let (v, stopped) = its[i].visit(k, rng.below(10) as u32);
                out.push(step("visit", i + 1, L(vec![L(v), B(stopped)])));
            }
            _ => {}
        }
    }
    for i in 0..its.len() {
        for n in 0.. {
            if rng.chance(10) {
                ask(&mut out, &its[i], i);
            }
            if !advance(&mut out, &mut its[i], i) || n > total + 20 {
                break;
            }
        }
        ask(&mut out, &its[i], i);
        advance(&mut out, &mut its[i], i);
        advance(&mut out, &mut its[i], i);
        ask(&mut out, &its[i], i);
    }
    (true, out)
}

fn drain_steps<T: Subject>(m: &mut T, a: &Val, var: u32) -> Vec<Val> {
    let filter = a.list().first();
    let mut out = vec![];
    for s in m.drain_steps(filter, var) {
        match s {
            DrainStep::Ask(hint, len) => {
                out.push(step(if filter.is_some() { "bound" } else { "hint" }, 1, hint_val(hint)));
                if let Some(n) = len {
                    out.push(step("len", 1, I(n.min(HUGE) as i64)));
                }
            }
            DrainStep::Next(x) => out.push(step("next", 1, L(x.into_iter().collect()))),
            DrainStep::Nth(k, x) => out.push(step("nth", 1, L(vec![I(k as i64), L(x.into_iter().collect())]))),
            DrainStep::Visit(v, stopped) => out.push(step("visit", 1, L(vec![L(v), B(stopped)]))),
        }
    }
    out
}

/// Make the calls again and again: the distinct lists of results
fn repeat<T: Subject>(m: &mut T, a: &Val, var: u32) -> Val {
    let calls: Vec<Call> = a.at(1).list().iter().map(|c| Call { op: c.at(0).str().into(), a: c.at(1).clone(), var }).collect();
    let mut out: Vec<Val> = vec![];
    for _ in 0..a.at(0).int() {
        let r = L(calls.iter().map(|c| m.apply(c)).collect());
        if !out.contains(&r) && out.len() < 3 {
            out.push(r);
        }
    }
    L(out)
}

fn two(c: (usize, usize)) -> [usize; 2] {
    [c.0.min(HUGE), c.1.min(HUGE)]
}

fn panicked(line: &mut Value, broken: &mut bool, what: &str) {
    line["panic"] = json!(what);
    *broken = true;
}

/// what an episode produced: lines, and whether it ended early
pub fn episode<T: Subject>(map: &str, cfg: &Cfg, src: &mut dyn Source, live: bool, caps: bool, out: &mut dyn Write) -> usize {
    begin_episode(map, cfg, "");
    track_reset();
    if let Some(h) = cfg.hb {
        set_default_hb(h);
    }
    let mut maps: BTreeMap<usize, T> = BTreeMap::new();
    maps.insert(0, T::fresh(cfg));
    let mut shapes: BTreeMap<usize, Shape> = BTreeMap::new();
    shapes.insert(0, Shape::default());
    let mut lines = 1;
    let mut first = json!({"op": "new", "map": map, "cfg": cfg_json(cfg)});
    if caps {
        first["cap"] = json!(two(maps[&0].capacities()));
        first["asked"] = json!(if cfg.hb.is_none() && cfg.cap == 1 { 0 } else { cfg.cap });
    }
    writeln!(out, "{first}").unwrap();
    let mut broken = false;
    loop {
        let Some(ev) = src.next(&shapes) else { break };
        lines += 1;
        let call = Call { op: ev.op.clone(), a: ev.a.clone(), var: ev.var };
        let mut line = ev_json(&ev);
        let o = line.as_object_mut().unwrap();
        for k in ["c", "s", "q", "x", "o", "r"] {
            o.insert(k.into(), json!([]));
        }
        if ev.op == "iterate" || ev.op == "drain_steps" {
            o.insert("opened".into(), json!(true));
            o.insert("steps".into(), json!([]));
        }
        o.insert("panic".into(), json!(""));
        o.insert("odd".into(), json!(""));
        o.insert("bad".into(), json!(false));
        o.insert("alive".into(), json!(-1));
        let mut before: Vec<(u8, u32, usize)> = vec![];
        let touched = match ev.op.as_str() {
            "fork" | "rebuild" => {
                let src_map = &maps[&ev.h];
                let rebuild = ev.op == "rebuild";
                let r = guarded(&ev.op, || {
                    let c = if rebuild { T::rebuilt(src_map, cfg, ev.var) } else { src_map.dup() };
                    let (a, b) = (src_map.equal(&c), c.equal(src_map));
                    (c, L(vec![B(a.0), B(a.1), B(b.0), B(b.1)]))
                });
                match r {
                    Ok((c, r)) => {
                        line["r"] = r.to_json();
                        maps.insert(ev.to, c);
                        ev.to
                    }
                    Err(_) => {
                        panicked(&mut line, &mut broken, "panic");
                        ev.h
                    }
                }
            }
            "eq" => {
                let (a, b) = (&maps[&ev.h], &maps[&ev.to]);
                match guarded("compare", || (a.equal(b), b.equal(a))) {
                    Ok((x, y)) => line["r"] = L(vec![B(x.0), B(x.1), B(y.0), B(y.1)]).to_json(),
                    Err(_) => panicked(&mut line, &mut broken, "panic"),
                }
                ev.h
            }
            "iterate" => {
                let m = &maps[&ev.h];
                match guarded("iterator", || iterate(map, m, &ev.a, ev.var)) {
                    Ok((opened, steps)) => {
                        line["opened"] = json!(opened);
                        line["steps"] = L(steps).to_json();
                    }
                    Err(_) => panicked(&mut line, &mut broken, "iterator-panic"),
                }
                ev.h
            }
            "drop" => {
                let m = maps.remove(&ev.h);
                shapes.remove(&ev.h);
                if guarded("drop", move || drop(m)).is_err() {
                    panicked(&mut line, &mut broken, "panic");
                }
                ev.h
            }
            _ => {
                let m = maps.get_mut(&ev.h).unwrap();
                if caps {
                    before = guarded("observe", || m.addresses()).unwrap_or_default();
                    let to = match ev.op.as_str() {
                        "shrink_to" | "shrink_to_left" | "shrink_to_right" => Some(ev.a.at(0).int() as usize),
                        "shrink_to_fit" => Some(0),
                        _ => None,
                    };
                    let n = |s: u8| before.iter().filter(|x| x.0 == s).count();
                    let mut f = (0, 0);
                    if let Some(k) = to {
                        let fresh = |len: usize| {
                            let want = k.max(len);
                            // with a capacity of 1 a map of the default hash builder is made by default()
                            let cap = if cfg.hb.is_none() && want == 1 { 2 } else { want };
                            T::fresh(&Cfg { hb: cfg.hb, cap, plain: 0 }).capacities()
                        };
                        f = (fresh(n(0)).0, fresh(n(1)).1);
                    }
                    line["fresh"] = json!(two(f));
                }
                begin_step_pub(&call);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if ev.op == "drain_steps" {
                        line["steps"] = L(drain_steps(m, &ev.a, ev.var)).to_json();
                        return L(vec![]);
                    }
                    if ev.op == "repeat" {
                        return repeat(m, &ev.a, ev.var);
                    }
                    m.apply(&call)
                }));
                end_step();
                match r {
                    Ok(r) if strange(&r, true) => line["odd"] = json!(r.to_string()),
                    Ok(r) => line["r"] = r.to_json(),
                    Err(_) => panicked(&mut line, &mut broken, "panic"),
                }
                ev.h
            }
        };
        if !broken && !matches!(ev.op.as_str(), "drop" | "eq" | "iterate") {
            let m = &maps[&touched];
            match guarded("observe", || look(m, &ev.look, ev.full)) {
                Ok(s) => {
                    shapes.insert(touched, if s.bad { Shape::default() } else { Shape::of(map, &s.c) });
                    line["c"] = if s.bad { json!([]) } else { s.c.to_json() };
                    line["s"] = s.s.to_json();
                    line["q"] = s.q.to_json();
                    line["x"] = s.x.to_json();
                    line["bad"] = json!(s.bad);
                }
                Err(_) => panicked(&mut line, &mut broken, "observer-panic"),
            }
        }
        if !broken && caps && !matches!(ev.op.as_str(), "drop" | "eq" | "iterate" | "fork" | "rebuild") {
            let m = &maps[&touched];
            let after: BTreeMap<(u8, u32), usize> = m.addresses().into_iter().map(|x| ((x.0, x.1), x.2)).collect();
            let mut used = BTreeSet::new();
            ints(&ev.a, &mut used);
            let moved = |s: u8| before.iter().any(|x| x.0 == s && !used.contains(&x.1) && after.get(&(s, x.1)).is_some_and(|p| *p != x.2));
            line["moved"] = json!([moved(0), moved(1)]);
            line["cap"] = json!(two(m.capacities()));
            if let Some(s) = shapes.get_mut(&touched) {
                s.cap = m.capacities();
            }
        }
        if !broken && maps.len() > 1 && ev.op != "eq" && ev.op != "iterate" {
            let mut os = vec![];
            for (h, m) in &maps {
                if *h != touched {
                    match guarded("observe", || look(m, &[], false)) {
                        Ok(s) => os.push(json!([h, s.c.to_json(), s.s.to_json()])),
                        // as a change nobody asked for
                        Err(_) => os.push(json!([h, [], [-1]])),
                    }
                }
            }
            line["o"] = json!(os);
        }
        if !broken && live {
            let stored: Vec<u32> = maps.values().flat_map(|m| m.stored()).collect();
            let uniq: BTreeSet<u32> = stored.iter().cloned().collect();
            let odd = track_has_errors() || uniq.len() != stored.len() || stored.iter().any(|i| !is_alive(*i));
            // items without destructors are alive where they are stored
            let plain: usize = if cfg.plain == 0 { 0 } else { maps.values().map(|m| m.addresses().len() - m.stored().len()).sum() };
            line["alive"] = json!(if odd { 1_000_000 } else { track_live() + plain });
        }
        writeln!(out, "{line}").unwrap();
        if broken {
            break;
        }
        if maps.is_empty() {
            return lines;
        }
    }
    if broken {
        maps.into_values().for_each(std::mem::forget);
        return lines;
    }
    // the end of all maps
    let hs: Vec<usize> = maps.keys().cloned().collect();
    for h in hs {
        let m = maps.remove(&h);
        lines += 1;
        let p = guarded("drop", move || drop(m)).is_err();
        let alive = if live && maps.is_empty() { if track_has_errors() { 1_000_000 } else { track_live() as i64 } } else { -1 };
        writeln!(out, "{}", json!({"op": "drop", "h": h, "to": 0, "a": [], "var": 0, "look": [], "full": false, "panic": if p { "panic" } else { "" }, "alive": alive, "o": []})).unwrap();
        if p {
            maps.into_values().for_each(std::mem::forget);
            return lines;
        }
    }
    lines
}

fn trace_cfg(rng: &mut Rng, prop: &str) -> Cfg {
    let kind = prop_kind(prop);
    let mut cfg = crate::explore::random_cfg(rng, kind);
    if prop == "X09" && rng.chance(25) {
        // maps made for many items
        cfg.cap = *rng.pick(&[57usize, 113, 449, 1000, 5000, 70_000, 70_000]);
    }
    cfg
}

pub fn record(a: Args) {
    std::panic::set_hook(Box::new(|_| {}));
    let path = a.one("out").expect("--out").to_string();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&path).expect("out"));
    if let Some(j) = a.one("journal") {
        *JOURNAL.lock().unwrap() = Some(std::fs::File::create(j).expect("journal"));
        JOURNALING.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    let slot = new_slot();
    hang_watch(slot, a.num("hang", 30), format!("{path}.hang"));
    let prop = a.one("prop").unwrap_or("X07").to_string();
    let (live, caps) = (prop == "X04", prop == "X09");
    if let Some(s) = a.one("script") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(s).expect("script")).expect("script");
        for ep in v.as_array().expect("episodes") {
            let cfg = cfg_from(&ep["cfg"]);
            let map = ep["map"].as_str().unwrap().to_string();
            let evs: Vec<Ev> = ep["events"].as_array().unwrap().iter().map(ev_from).collect();
            let mut src = Script { evs: evs.into_iter() };
            dispatch!(map.as_str(), cfg, episode, &map, &cfg, &mut src, live, caps, &mut out);
        }
    } else {
        let map = a.one("map").expect("--map").to_string();
        let n = a.num("events", 1000) as usize;
        let mut rng = Rng::new(a.num("seed", 1));
        let mut lines = 0;
        // the first lives are those of big maps
        let mut big = a.num("big", 0);
        while lines < n || big > 0 {
            let cfg = trace_cfg(&mut rng, &prop);
            let size = if big > 0 { a.num("size", 0) as usize } else { 0 };
            big = big.saturating_sub(1);
            let mut g = Gen::new(&map, &prop, rng.next(), size);
            lines += dispatch!(map.as_str(), cfg, episode, &map, &cfg, &mut g, live, caps, &mut out);
        }
    }
    out.flush().unwrap();
}

/// ends the process with status 3 when a call does not return
pub fn hang_watch(slot: std::sync::Arc<Slot>, secs: u64, path: String) {
    use std::sync::atomic::Ordering::*;
    use std::time::{Duration, Instant};
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = slot.tick.load(Relaxed);
            if t != last.0 || !slot.busy.load(Relaxed) {
                last = (t, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(secs) {
                let h = slot.hist.lock().unwrap();
                let v = json!({"kind": "history", "map": h.0, "table": "", "cfg": h.1.as_ref().map(cfg_json),
                    "calls": h.2.iter().map(call_json).collect::<Vec<_>>(), "failure": "a call does not return"});
                let _ = std::fs::write(&path, v.to_string());
                std::process::exit(3);
            }
        }
    });
}
