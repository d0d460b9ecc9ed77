//! The real maps behind one interface: apply an operation of the specification, observe.
use crate::item::*;
use crate::val::{Val::*, *};
use crate::wire;
use cycle_map::optionals::OptionalPair;
use cycle_map::optionals::OptionalPair::*;
use cycle_map::{CycleMap, GroupMap, PartialCycleMap};
use hashbrown::hash_map::DefaultHashBuilder;
use std::hash::BuildHasher;
use std::marker::PhantomData;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// no map here is bigger than this: longer iterations are broken ones
const LIM: usize = 40_000;

/// One call of a public operation. `var` picks between equivalent ways of making the call.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Call {
    pub op: String,
    pub a: Val,
    pub var: u32,
}

/// How a map is created.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub hb: Option<Hb>, // None: the default hash builder
    pub cap: usize,
    /// items without destructors: 1 the left ones, 2 the right ones, 3 all
    pub plain: u8,
}

/// Key domains to observe over
#[derive(Clone, Copy, Debug)]
pub struct Dom {
    pub nl: u32,
    pub nr: u32,
}

pub trait HB: BuildHasher + Clone + Default + Sized + 'static {
    type A: Mark;
    type B: Mark;
    fn cycle(cfg: &Cfg) -> CycleMap<Tk<Self::A>, Tk<Self::B>, Self>;
    fn partial(cfg: &Cfg) -> PartialCycleMap<Tk<Self::A>, Tk<Self::B>, Self>;
    fn group(cfg: &Cfg) -> GroupMap<Tk<Self::A>, Tk<Self::B>, Self>;
    fn collect_cycle(&self, v: Vec<(Tk<Self::A>, Tk<Self::B>)>) -> CycleMap<Tk<Self::A>, Tk<Self::B>, Self>;
    fn collect_partial(&self, v: Vec<(Tk<Self::A>, Tk<Self::B>)>) -> PartialCycleMap<Tk<Self::A>, Tk<Self::B>, Self>;
    fn collect_partial_opt(&self, v: Vec<OptionalPair<Tk<Self::A>, Tk<Self::B>>>) -> PartialCycleMap<Tk<Self::A>, Tk<Self::B>, Self>;
    fn collect_group(&self, v: Vec<(Tk<Self::A>, Tk<Self::B>)>) -> GroupMap<Tk<Self::A>, Tk<Self::B>, Self>;
    fn collect_group_opt(&self, v: Vec<(Option<Tk<Self::A>>, Tk<Self::B>)>) -> GroupMap<Tk<Self::A>, Tk<Self::B>, Self>;
}
impl<A: Mark, B: Mark> HB for Hx<A, B> {
    type A = A;
    type B = B;
    fn cycle(cfg: &Cfg) -> CycleMap<Tk<A>, Tk<B>, Self> {
        if cfg.cap == 0 {
            CycleMap::with_hasher(Hx(cfg.hb.unwrap(), PhantomData))
        } else {
            CycleMap::with_capacity_and_hasher(cfg.cap, Hx(cfg.hb.unwrap(), PhantomData))
        }
    }
    fn partial(cfg: &Cfg) -> PartialCycleMap<Tk<A>, Tk<B>, Self> {
        if cfg.cap == 0 {
            PartialCycleMap::with_hasher(Hx(cfg.hb.unwrap(), PhantomData))
        } else {
            PartialCycleMap::with_capacity_and_hasher(cfg.cap, Hx(cfg.hb.unwrap(), PhantomData))
        }
    }
    fn group(cfg: &Cfg) -> GroupMap<Tk<A>, Tk<B>, Self> {
        if cfg.cap == 0 {
            GroupMap::with_hasher(Hx(cfg.hb.unwrap(), PhantomData))
        } else {
            GroupMap::with_capacity_and_hasher(cfg.cap, Hx(cfg.hb.unwrap(), PhantomData))
        }
    }
    fn collect_cycle(&self, v: Vec<(Tk<A>, Tk<B>)>) -> CycleMap<Tk<A>, Tk<B>, Self> {
        let mut m = CycleMap::with_hasher(self.clone());
        m.extend(v);
        m
    }
    fn collect_partial(&self, v: Vec<(Tk<A>, Tk<B>)>) -> PartialCycleMap<Tk<A>, Tk<B>, Self> {
        let mut m = PartialCycleMap::with_hasher(self.clone());
        m.extend(v);
        m
    }
    fn collect_partial_opt(&self, v: Vec<OptionalPair<Tk<A>, Tk<B>>>) -> PartialCycleMap<Tk<A>, Tk<B>, Self> {
        let mut m = PartialCycleMap::with_hasher(self.clone());
        m.extend(v);
        m
    }
    fn collect_group(&self, v: Vec<(Tk<A>, Tk<B>)>) -> GroupMap<Tk<A>, Tk<B>, Self> {
        let mut m = GroupMap::with_hasher(self.clone());
        m.extend(v);
        m
    }
    fn collect_group_opt(&self, v: Vec<(Option<Tk<A>>, Tk<B>)>) -> GroupMap<Tk<A>, Tk<B>, Self> {
        let mut m = GroupMap::with_hasher(self.clone());
        m.extend(v);
        m
    }
}
impl HB for DefaultHashBuilder {
    type A = Tracked;
    type B = Tracked;
    fn cycle(cfg: &Cfg) -> CycleMap<Tk, Tk> {
        match cfg.cap {
            0 => CycleMap::new(),
            1 => CycleMap::default(),
            n => CycleMap::with_capacity(n),
        }
    }
    fn partial(cfg: &Cfg) -> PartialCycleMap<Tk, Tk> {
        match cfg.cap {
            0 => PartialCycleMap::new(),
            1 => PartialCycleMap::default(),
            n => PartialCycleMap::with_capacity(n),
        }
    }
    fn group(cfg: &Cfg) -> GroupMap<Tk, Tk> {
        match cfg.cap {
            0 => GroupMap::new(),
            1 => GroupMap::default(),
            n => GroupMap::with_capacity(n),
        }
    }
    fn collect_cycle(&self, v: Vec<(Tk, Tk)>) -> CycleMap<Tk, Tk> {
        v.into_iter().collect()
    }
    fn collect_partial(&self, v: Vec<(Tk, Tk)>) -> PartialCycleMap<Tk, Tk> {
        v.into_iter().collect()
    }
    fn collect_partial_opt(&self, v: Vec<OptionalPair<Tk, Tk>>) -> PartialCycleMap<Tk, Tk> {
        v.into_iter().collect()
    }
    fn collect_group(&self, v: Vec<(Tk, Tk)>) -> GroupMap<Tk, Tk> {
        v.into_iter().collect()
    }
    fn collect_group_opt(&self, v: Vec<(Option<Tk>, Tk)>) -> GroupMap<Tk, Tk> {
        v.into_iter().collect()
    }
}

/// A kind of iterator, opened on a map: see `iters`.
pub trait It<'a> {
    fn next(&mut self) -> Option<Val>;
    fn hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> Option<usize>;
    fn dup(&self) -> Option<Box<dyn It<'a> + 'a>>;
    fn debug(&self, pretty: bool) -> Option<String>;
    fn nth(&mut self, k: usize) -> Option<Val>;
    /// visit entries until the k-th one (counted from 1), through one of the short-circuiting
    /// adapters; what was visited, and whether it was stopped
    fn visit(&mut self, k: usize, how: u32) -> (Vec<Val>, bool);
    /// what fold, count and last of a clone see
    fn folded(&self, how: u32) -> Vec<Val>;
    fn counted(&self) -> usize;
    fn last(&self) -> Option<Val>;
}

fn endless<T>(v: &[T]) {
    assert!(v.len() <= LIM, "the iterator does not end");
}
fn visit_some<I: Iterator>(it: &mut I, k: usize, how: u32, conv: impl Fn(I::Item) -> Val) -> (Vec<Val>, bool) {
    let mut v = vec![];
    let mut see = |x: I::Item| {
        v.push(conv(x));
        endless(&v);
        v.len() == k
    };
    let stopped = match how % 5 {
        0 => !it.all(|x| !see(x)),
        1 => it.any(see),
        2 => it.position(see).is_some(),
        3 => it.try_for_each(|x| if see(x) { Err(()) } else { Ok(()) }).is_err(),
        _ => it.find_map(|x| see(x).then_some(())).is_some(),
    };
    (v, stopped)
}
fn all_of<I: Iterator>(it: I, how: u32, conv: impl Fn(I::Item) -> Val) -> Vec<Val> {
    match how % 3 {
        0 => it.fold(vec![], |mut v, x| {
            v.push(conv(x));
            endless(&v);
            v
        }),
        1 => {
            let mut v = vec![];
            it.for_each(|x| {
                v.push(conv(x));
                endless(&v);
            });
            v
        }
        _ => it.map(|x| conv(x)).take(LIM + 1).collect(),
    }
}

pub trait Subject: Sized {
    const MAP: &'static str;
    fn fresh(cfg: &Cfg) -> Self;
    fn apply(&mut self, c: &Call) -> Val;
    /// every query over the domain, in the field order of Obs (alphabetical)
    fn observe(&self, d: &Dom) -> Val;
    /// contents: [p, ul, ur] sorted, and an iteration-free consistency marker
    fn contents(&self) -> Val;
    /// cheap lookups of one left and one right key, for long traces
    fn lookups(&self, lk: u32, rk: u32) -> Val;
    fn sizes(&self) -> Val;
    fn stored(&self) -> Vec<u32>;
    fn dup(&self) -> Self;
    fn dup_from(&mut self, o: &Self);
    fn equal(&self, o: &Self) -> (bool, bool);
    fn debug(&self, pretty: bool) -> String;
    /// open the iterator of a kind and hand it to the function; keys for keyed iterators
    fn iter_kinds() -> &'static [&'static str];
    fn open<'a>(&'a self, kind: &str, key: u32) -> Option<Box<dyn It<'a> + 'a>>;
    /// what the iterators other than iter() list
    fn others(&self) -> Vec<Val> {
        let kinds: &[&str] = if Self::MAP == "CycleMap" { &["il", "ir"] } else { &["il", "ip", "ir", "iu"] };
        let list = |kind| {
            let mut it = self.open(kind, 0).unwrap();
            let mut v = vec![];
            while let Some(x) = it.next() {
                v.push(x);
                if v.len() > LIM {
                    break;
                }
            }
            L(v)
        };
        kinds.iter().map(|k| list(*k)).collect()
    }
    /// the same contents, built by insertions into a new map in some other order
    fn rebuilt(o: &Self, cfg: &Cfg, var: u32) -> Self {
        let hb = cfg.hb.map(|h| Hb { seed: h.seed + var as u64 % 7, ..h });
        let mut m = Self::fresh(&Cfg { hb, cap: (var % 5) as usize * 3, plain: 0 });
        let mut v = o.contents().list().clone();
        let mut rng = Rng::new(var as u64);
        for i in (1..v.len()).rev() {
            v.swap(i, rng.below(i + 1));
        }
        for e in v {
            let (op, a) = match Self::MAP {
                "CycleMap" => ("insert", e.list().clone()),
                "GroupMap" => match e.at(0).list().first() {
                    Some(l) => ("insert", vec![l.clone(), e.at(1).clone()]),
                    None => ("insert_right", vec![e.at(1).clone()]),
                },
                _ => match e.at(0).str() {
                    "B" => ("insert", e.list()[1..].to_vec()),
                    "L" => ("insert_left", e.list()[1..].to_vec()),
                    _ => ("insert_right", e.list()[1..].to_vec()),
                },
            };
            m.apply(&Call { op: op.into(), a: L(a), var: 0 });
        }
        m
    }
    fn capacities(&self) -> (usize, usize);
    /// addresses of the stored items, by side and key
    fn addresses(&self) -> Vec<(u8, u32, usize)>;
    /// drain / drain_filter stepped by hand: for every step (yielded, hint before, len before)
    fn drain_steps(&mut self, filter: Option<&Val>, var: u32) -> Vec<DrainStep>;
}

// ---------------------------------------------------------------- arguments and results

pub fn item<M: Mark>(side: u8, v: &Val) -> Tk<M> {
    Tk::new(side, v.at(0).int() as u32, v.at(1).int() as u32)
}
fn lk<M: Mark>(v: &Val) -> Tk<M> {
    Tk::probe(0, v.int() as u32)
}
fn rk<M: Mark>(v: &Val) -> Tk<M> {
    Tk::probe(1, v.int() as u32)
}
fn pair_val<A: Mark, B: Mark>(x: &(Tk<A>, Tk<B>)) -> Val {
    L(vec![x.0.val(), x.1.val()])
}
fn opt_val<M: Mark>(x: &Option<Tk<M>>) -> Val {
    L(x.iter().map(|i| i.val()).collect())
}
fn opt_ref<M: Mark>(x: Option<&Tk<M>>) -> Val {
    L(x.iter().map(|i| i.val()).collect())
}
fn opt_pair_val<A: Mark, B: Mark>(x: &Option<(Tk<A>, Tk<B>)>) -> Val {
    L(x.iter().map(pair_val).collect())
}
pub fn op_val<A: Eq, B: Eq>(x: &OptionalPair<A, B>, fa: impl Fn(&A) -> Val, fb: impl Fn(&B) -> Val) -> Val {
    match x {
        Neither => L(vec![s("N")]),
        SomeLeft(a) => L(vec![s("L"), fa(a)]),
        SomeRight(b) => L(vec![s("R"), fb(b)]),
        SomeBoth(a, b) => L(vec![s("B"), fa(a), fb(b)]),
    }
}
pub fn ent_val<A: Mark, B: Mark>(x: &OptionalPair<Tk<A>, Tk<B>>) -> Val {
    op_val(x, |a| a.val(), |b| b.val())
}
pub fn ent_ref<A: Mark, B: Mark>(x: &OptionalPair<&Tk<A>, &Tk<B>>) -> Val {
    op_val(x, |a| a.val(), |b| b.val())
}
fn ent_key<A: Mark, B: Mark>(x: &OptionalPair<&Tk<A>, &Tk<B>>) -> Val {
    op_val(x, |a| a.kval(), |b| b.kval())
}
fn key_pair<A: Mark, B: Mark>(l: &Tk<A>, r: &Tk<B>) -> Val {
    L(vec![l.kval(), r.kval()])
}
fn rpair<A: Mark, B: Mark>(l: &Tk<A>, r: &Tk<B>) -> Val {
    L(vec![l.val(), r.val()])
}
fn group_val<A: Mark, B: Mark>(x: &Option<(hashbrown::HashSet<Tk<A>>, Tk<B>)>) -> Val {
    match x {
        None => L(vec![]),
        Some((set, r)) => L(vec![Val::set(set.iter().map(|i| i.val()).collect()), r.val()]),
    }
}
fn ok() -> Val {
    L(vec![s("ok")])
}

/// the panic of a caller callback
struct Boom;
fn boom() -> ! {
    panic_any(Boom)
}
/// run f, expecting it to panic with Boom
fn expecting_boom(f: impl FnOnce()) -> Val {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => s("callback was never called"),
        Err(p) if p.is::<Boom>() => L(vec![s("panic")]),
        Err(p) => std::panic::resume_unwind(p),
    }
}
/// items of a sequence, then a panic
fn then_boom<T>(v: Vec<T>, var: u32) -> impl Iterator<Item = T> {
    struct B<T>(std::vec::IntoIter<T>, u32);
    impl<T> Iterator for B<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            match self.0.next() {
                None => boom(),
                x => x,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            match self.1 % 3 {
                0 => (0, None),
                1 => (self.0.len() + 1, None),
                _ => (self.0.len(), Some(self.0.len() + 10)),
            }
        }
    }
    B(v.into_iter(), var)
}
/// a sequence, with size hints of various (legal) kinds
fn seq<T>(v: Vec<T>, var: u32) -> impl Iterator<Item = T> {
    struct B<T>(std::vec::IntoIter<T>, u32);
    impl<T> Iterator for B<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            match self.1 % 4 {
                0 => (self.0.len(), Some(self.0.len())),
                1 => (0, None),
                2 => (0, Some(usize::MAX)),
                _ => (self.0.len().min(1), None),
            }
        }
    }
    B(v.into_iter(), var)
}
fn pairs<A: Mark, B: Mark>(v: &Val) -> Vec<(Tk<A>, Tk<B>)> {
    v.list().iter().map(|x| (item(0, x.at(0)), item(1, x.at(1)))).collect()
}
fn entries<A: Mark, B: Mark>(v: &Val) -> Vec<OptionalPair<Tk<A>, Tk<B>>> {
    v.list()
        .iter()
        .map(|x| match x.at(0).str() {
            "N" => Neither,
            "L" => SomeLeft(item(0, x.at(1))),
            "R" => SomeRight(item(1, x.at(1))),
            _ => SomeBoth(item(0, x.at(1)), item(1, x.at(2))),
        })
        .collect()
}
fn opt_pairs<A: Mark, B: Mark>(v: &Val) -> Vec<(Option<Tk<A>>, Tk<B>)> {
    v.list()
        .iter()
        .map(|x| (x.at(0).list().first().map(|l| item(0, l)), item(1, x.at(1))))
        .collect()
}

// ---------------------------------------------------------------- iterators

macro_rules! wrap {
    ($name:ident, $iter:ty, $conv:expr, $gen:ident) => {
        struct $name<'a, $gen: HB>($iter);
        impl<'a, $gen: HB> It<'a> for $name<'a, $gen> {
            fn next(&mut self) -> Option<Val> {
                self.0.next().map(|x| ($conv)(x))
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn len(&self) -> Option<usize> {
                Some(ExactSizeIterator::len(&self.0))
            }
            fn dup(&self) -> Option<Box<dyn It<'a> + 'a>> {
                Some(Box::new($name::<$gen>(self.0.clone())))
            }
            fn debug(&self, pretty: bool) -> Option<String> {
                Some(if pretty { format!("{:#?}", self.0) } else { format!("{:?}", self.0) })
            }
            fn nth(&mut self, k: usize) -> Option<Val> {
                self.0.nth(k).map(|x| ($conv)(x))
            }
            fn visit(&mut self, k: usize, how: u32) -> (Vec<Val>, bool) {
                visit_some(&mut self.0, k, how, |x| ($conv)(x))
            }
            fn folded(&self, how: u32) -> Vec<Val> {
                all_of(self.0.clone(), how, |x| ($conv)(x))
            }
            fn counted(&self) -> usize {
                self.0.clone().count()
            }
            fn last(&self) -> Option<Val> {
                self.0.clone().last().map(|x| ($conv)(x))
            }
        }
    };
}
macro_rules! wrap1 {
    ($name:ident, $iter:ty, $conv:expr) => {
        struct $name<'a, M: Mark>($iter);
        impl<'a, M: Mark> It<'a> for $name<'a, M> {
            fn next(&mut self) -> Option<Val> {
                self.0.next().map(|x| ($conv)(x))
            }
            fn hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
            fn len(&self) -> Option<usize> {
                Some(ExactSizeIterator::len(&self.0))
            }
            fn dup(&self) -> Option<Box<dyn It<'a> + 'a>> {
                Some(Box::new($name(self.0.clone())))
            }
            fn debug(&self, pretty: bool) -> Option<String> {
                Some(if pretty { format!("{:#?}", self.0) } else { format!("{:?}", self.0) })
            }
            fn nth(&mut self, k: usize) -> Option<Val> {
                self.0.nth(k).map(|x| ($conv)(x))
            }
            fn visit(&mut self, k: usize, how: u32) -> (Vec<Val>, bool) {
                visit_some(&mut self.0, k, how, |x| ($conv)(x))
            }
            fn folded(&self, how: u32) -> Vec<Val> {
                all_of(self.0.clone(), how, |x| ($conv)(x))
            }
            fn counted(&self) -> usize {
                self.0.clone().count()
            }
            fn last(&self) -> Option<Val> {
                self.0.clone().last().map(|x| ($conv)(x))
            }
        }
    };
}
use cycle_map::{cycle_map as cm, group_map as gm, partial_cycle_map as pm};
wrap!(CIter, cm::Iter<'a, Tk<S::A>, Tk<S::B>, S>, |(l, r): (&Tk<S::A>, &Tk<S::B>)| rpair(l, r), S);
wrap1!(CSingle, cm::SingleIter<'a, Tk<M>>, |x: &Tk<M>| x.val());
wrap!(PIter, pm::Iter<'a, Tk<S::A>, Tk<S::B>, S>, |e: OptionalPair<&Tk<S::A>, &Tk<S::B>>| ent_ref(&e), S);
wrap!(PPaired, pm::PairedIter<'a, Tk<S::A>, Tk<S::B>, S>, |(l, r): (&Tk<S::A>, &Tk<S::B>)| rpair(l, r), S);
wrap!(PUnpaired, pm::UnpairedIter<'a, Tk<S::A>, Tk<S::B>, S>, |e: OptionalPair<&Tk<S::A>, &Tk<S::B>>| ent_ref(&e), S);
wrap1!(PSingle, pm::SingleIter<'a, Tk<M>>, |x: &Tk<M>| x.val());
wrap!(GIter, gm::Iter<'a, Tk<S::A>, Tk<S::B>, S>, |(l, r): (Option<&Tk<S::A>>, &Tk<S::B>)| L(vec![opt_ref(l), r.val()]), S);
wrap!(GPaired, gm::PairedIter<'a, Tk<S::A>, Tk<S::B>, S>, |(l, r): (&Tk<S::A>, &Tk<S::B>)| rpair(l, r), S);
wrap!(GUnpaired, gm::UnpairedIter<'a, Tk<S::A>, Tk<S::B>, S>, |r: &Tk<S::B>| r.val(), S);
wrap1!(GLeft, gm::LeftIter<'a, Tk<M>>, |x: &Tk<M>| x.val());
wrap1!(GRight, gm::RightIter<'a, Tk<M>>, |x: &Tk<M>| x.val());
wrap!(GPairIter, gm::PairIter<'a, Tk<S::A>, Tk<S::B>, S>, |x: &Tk<S::A>| x.val(), S);

fn map_over(n: u32, f: impl Fn(u32) -> Val) -> Val {
    L((1..=n).map(f).collect())
}
/// a lookup by item and by borrowed key must agree
fn same_by_key(by_item: Val, by_key: Val) -> Val {
    if by_item == by_key {
        by_item
    } else {
        L(vec![s("item and borrowed key disagree"), by_item, by_key])
    }
}

/// A sequence deserializer that lies about its length.
struct Lying {
    v: std::vec::IntoIter<serde_json::Value>,
    hint: Option<usize>,
    fail_at_end: bool,
}
impl<'de> serde::de::SeqAccess<'de> for Lying {
    type Error = serde_json::Error;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        match self.v.next() {
            Some(x) => seed.deserialize(x).map(Some),
            None if self.fail_at_end => Err(serde::de::Error::custom("unexpected end")),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de> serde::Deserializer<'de> for Lying {
    type Error = serde_json::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_seq(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
fn pairs_json(v: &Val) -> serde_json::Value {
    let it = |side: u8, x: &Val| serde_json::json!([side, x.at(0).int(), x.at(1).int()]);
    serde_json::Value::Array(
        v.list().iter().map(|p| serde_json::Value::Array(vec![it(0, p.at(0)), it(1, p.at(1))])).collect(),
    )
}

// ---------------------------------------------------------------- CycleMap

pub struct Cyc<S: HB>(pub CycleMap<Tk<S::A>, Tk<S::B>, S>);

impl<S: HB> Subject for Cyc<S> {
    const MAP: &'static str = "CycleMap";
    fn fresh(cfg: &Cfg) -> Self {
        Cyc(S::cycle(cfg))
    }
    fn apply(&mut self, c: &Call) -> Val {
        let m = &mut self.0;
        let a = |i: usize| c.a.at(i);
        let ipair = |x: &OptionalPair<(Tk<S::A>, Tk<S::B>), (Tk<S::A>, Tk<S::B>)>| op_val(x, pair_val, pair_val);
        
        match c.op.as_str() {
            "insert" => ipair(&m.insert(item(0, a(0)), item(1, a(1)))),
            "remove" => opt_pair_val(&m.remove(&lk(a(0)), &rk(a(1)))),
            "remove_via_left" => opt_pair_val(&m.remove_via_left(&lk(a(0)))),
            "remove_via_right" => opt_pair_val(&m.remove_via_right(&rk(a(0)))),
            "swap_left" => op_item(&m.swap_left(&lk(a(0)), item(0, a(1)))),
            "swap_left_checked" => op_item(&m.swap_left_checked(&lk(a(0)), &rk(a(1)), item(0, a(2)))),
            "swap_left_or_insert" => op_item(&m.swap_left_or_insert(&lk(a(0)), item(0, a(1)), item(1, a(2)))),
            "swap_right" => op_item(&m.swap_right(&rk(a(0)), item(1, a(1)))),
            "swap_right_checked" => op_item(&m.swap_right_checked(&rk(a(0)), &lk(a(1)), item(1, a(2)))),
            "swap_right_or_insert" => op_item(&m.swap_right_or_insert(&rk(a(0)), item(1, a(1)), item(0, a(2)))),
            "clear" => {
                m.clear();
                Val::unit()
            }
            "drain" => {
                let n = a(0).int() as usize;
                Val::set(taken(m.drain(), n, c.var, pair_val))
            }
            "drain_filter" => {
                let (sel, n) = (a(0), a(1).int() as usize);
                let mut seen = vec![];
                let v = {
                    let it = m.drain_filter(|l, r| {
                        seen.push(rpair(l, r));
                        sel.has(&key_pair(l, r))
                    });
                    taken(it, n, c.var, pair_val)
                };
                L(vec![Val::set(v), Val::set(seen)])
            }
            "drain_filter_forget" => {
                let (sel, n) = (a(0), a(1).int() as usize);
                let mut v = vec![];
                let mut it = m.drain_filter(|l, r| sel.has(&key_pair(l, r)));
                for _ in 0..n {
                    match it.next() {
                        Some(x) => v.push(pair_val(&x)),
                        None => break,
                    }
                }
                std::mem::forget(it);
                Val::set(v)
            }
            "drain_filter_panic" => {
                let (sel, x, var) = (a(0), a(1), c.var);
                expecting_boom(|| {
                    let mut it = m.drain_filter(|l, r| {
                        let k = key_pair(l, r);
                        if k == *x {
                            boom()
                        }
                        sel.has(&k)
                    });
                    // panic during iteration, or while the iterator is dropped
                    for _ in 0..(var % 3) * 10 {
                        if it.next().is_none() {
                            break;
                        }
                    }
                })
            }
            "retain" => {
                let mut seen = vec![];
                m.retain(|l, r| {
                    seen.push(rpair(l, r));
                    a(0).has(&key_pair(l, r))
                });
                Val::set(seen)
            }
            "retain_panic" => expecting_boom(|| {
                m.retain(|l, r| {
                    let k = key_pair(l, r);
                    if k == *a(1) {
                        boom()
                    }
                    a(0).has(&k)
                })
            }),
            "extend" => {
                m.extend(seq(pairs(a(0)), c.var));
                Val::unit()
            }
            "extend_panic" => {
                let it = then_boom(pairs(a(0)), c.var);
                expecting_boom(|| m.extend(it))
            }
            "collect" => {
                *m = m.hasher().clone().collect_cycle(pairs(a(0)));
                Val::unit()
            }
            "deserialize" => {
                let j = pairs_json(a(0));
                let n = j.as_array().unwrap().len();
                let lying = |h| Lying { v: j.as_array().unwrap().clone().into_iter(), hint: h, fail_at_end: false };
                use serde::Deserialize;
                // what a writer of the binary format makes of such a sequence
                let numbers = || {
                    let mut v = vec![n as u64];
                    j.as_array().unwrap().iter().for_each(|p| p.as_array().unwrap().iter().for_each(|x| v.extend(x.as_array().unwrap().iter().map(|k| k.as_u64().unwrap()))));
                    v
                };
                let r: Result<CycleMap<Tk<S::A>, Tk<S::B>, S>, String> = match c.var % 7 {
                    6 => wire::read(&numbers()).map_err(|e| e.to_string()),
                    k => (match k {
                    0 => serde_json::from_str(&j.to_string()),
                    1 => serde_json::from_value(j.clone()),
                    2 => CycleMap::deserialize(lying(None)),
                    3 => CycleMap::deserialize(lying(Some(0))),
                    4 => CycleMap::deserialize(lying(Some(n + 5))),
                    _ => CycleMap::deserialize(lying(Some(usize::MAX))),
                    }).map_err(|e: serde_json::Error| e.to_string()),
                };
                match r {
                    Ok(x) => {
                        *m = x;
                        Val::unit()
                    }
                    Err(e) => s(&format!("error {e}")),
                }
            }
            "deserialize_bad" => {
                let good = pairs_json(&L(m.iter().take(LIM).map(|(l, r)| rpair(l, r)).collect()));
                let body = good.to_string();
                use serde::Deserialize;
                let trunc = body[..body.len() - 1].to_string();
                let text = match a(0).int() {
                    0 => "nonsense".to_string(),
                    1 => "{\"a\":1}".to_string(),
                    2 => "[[[0,1,0]]]".to_string(),
                    3 => format!("{},[[0,1,0],[1,1,0],[1,2,0]]]", if trunc == "[" { "[[[0,9,0],[1,9,0]]".into() } else { trunc.clone() }),
                    4 => trunc.clone(),
                    5 => "null".to_string(),
                    6 => "[[[0,1,0],\"x\"]]".to_string(),
                    _ => String::new(),
                };
                let mut numbers = wire::write(&*m).unwrap_or_default();
                let r: Result<CycleMap<Tk<S::A>, Tk<S::B>, S>, String> = if a(0).int() % 4 == 3 && c.var % 2 == 0 && !numbers.is_empty() {
                    match c.var % 6 {
                        // announces more than there is
                        0 => numbers[0] += 1 + (c.var as u64 % 50) * (c.var as u64 % 50),
                        2 if numbers.len() > 1 => numbers.truncate(numbers.len() - 1 - c.var as usize % 6),
                        _ => numbers[0] = u64::MAX - 1,
                    }
                    wire::read(&numbers).map_err(|e| e.to_string())
                } else if a(0).int() == 7 {
                    let d = Lying { v: good.as_array().unwrap().clone().into_iter(), hint: Some(usize::MAX / 2), fail_at_end: true };
                    CycleMap::deserialize(d).map_err(|e| e.to_string())
                } else {
                    serde_json::from_str(&text).map_err(|e| e.to_string())
                };
                match r {
                    Ok(_) => s("malformed input accepted"),
                    Err(_) => L(vec![s("err")]),
                }
            }
            "round_trip" => {
                let j = serde_json::to_value(&*m).unwrap();
                let txt = serde_json::to_string(&*m).unwrap();
                let listed: Vec<(Tk<S::A>, Tk<S::B>)> = serde_json::from_value(j.clone()).unwrap();
                let out = Val::set(listed.iter().map(pair_val).collect());
                let numbers = match wire::write(&*m) {
                    Ok(v) => v,
                    Err(e) => return s(&format!("serialization fails: {e}")),
                };
                let back: CycleMap<Tk<S::A>, Tk<S::B>, S> = match c.var % 5 {
                    0 | 2 => serde_json::from_value(j).unwrap(),
                    4 => match wire::read(&numbers) {
                        Ok(b) => b,
                        Err(e) => return s(&format!("deserialization fails: {e}")),
                    },
                    _ => serde_json::from_str(&txt).unwrap(),
                };
                if back != *m || *m != back {
                    return s("round trip gives an unequal map");
                }
                if c.var % 3 == 0 {
                    *m = back;
                }
                out
            }
            "clone" => clone_op(self, c.var),
            "reserve" => {
                m.reserve(a(0).int() as usize);
                ok()
            }
            "try_reserve" => match m.try_reserve(a(0).int() as usize) {
                Ok(()) => ok(),
                Err(_) => s("refused"),
            },
            "try_reserve_huge" => match m.try_reserve(huge(c.var)) {
                Ok(()) => s("accepted"),
                Err(_) => ok(),
            },
            "shrink_to" => {
                m.shrink_to(a(0).int() as usize);
                ok()
            }
            "shrink_to_fit" => {
                m.shrink_to_fit();
                ok()
            }
            x => panic!("unknown operation {x}"),
        }
    }
    fn observe(&self, d: &Dom) -> Val {
        let m = &self.0;
        
        let kk = |side, key| Key { side, key };
        // ap cl cr empty gl gr il ir iter len
        L(vec![
            map_over(d.nl, |i| map_over(d.nr, |j| B(m.are_paired(&Tk::probe(0, i), &Tk::probe(1, j))))),
            map_over(d.nl, |i| B(m.contains_left(&Tk::probe(0, i)))),
            map_over(d.nr, |j| B(m.contains_right(&Tk::probe(1, j)))),
            B(m.is_empty()),
            map_over(d.nr, |j| same_by_key(opt_ref(m.get_left(&Tk::probe(1, j))), opt_ref(m.get_left(&kk(1, j))))),
            map_over(d.nl, |i| same_by_key(opt_ref(m.get_right(&Tk::probe(0, i))), opt_ref(m.get_right(&kk(0, i))))),
            Val::set(m.iter_left().take(LIM).map(|x| x.val()).collect()),
            Val::set(m.iter_right().take(LIM).map(|x| x.val()).collect()),
            Val::set(m.iter().take(LIM).map(|(l, r)| rpair(l, r)).collect()),
            I(m.len() as i64),
        ])
    }
    fn contents(&self) -> Val {
        L(self.0.iter().take(LIM).map(|(l, r)| rpair(l, r)).collect())
    }
    fn lookups(&self, l: u32, r: u32) -> Val {
        let m = &self.0;
        let (pl, pr) = (Tk::<S::A>::probe(0, l), Tk::<S::B>::probe(1, r));
        L(vec![
            I(l as i64),
            I(r as i64),
            B(m.contains_left(&pl)),
            B(m.contains_right(&pr)),
            same_by_key(opt_ref(m.get_right(&pl)), opt_ref(m.get_right(&pl.q))),
            same_by_key(opt_ref(m.get_left(&pr)), opt_ref(m.get_left(&pr.q))),
            B(m.are_paired(&pl, &pr)),
        ])
    }
    fn sizes(&self) -> Val {
        L(vec![I(self.0.len() as i64), B(self.0.is_empty())])
    }
    fn stored(&self) -> Vec<u32> {
        self.0.iter_left().take(LIM).filter_map(|x| x.inst()).chain(self.0.iter_right().take(LIM).filter_map(|x| x.inst())).collect()
    }
    fn dup(&self) -> Self {
        Cyc(self.0.clone())
    }
    fn dup_from(&mut self, o: &Self) {
        self.0.clone_from(&o.0)
    }
    fn equal(&self, o: &Self) -> (bool, bool) {
        (self.0 == o.0, self.0 != o.0)
    }
    fn debug(&self, pretty: bool) -> String {
        if pretty { format!("{:#?}", self.0) } else { format!("{:?}", self.0) }
    }
    fn iter_kinds() -> &'static [&'static str] {
        &["iter", "il", "ir"]
    }
    fn open<'a>(&'a self, kind: &str, _: u32) -> Option<Box<dyn It<'a> + 'a>> {
        Some(match kind {
            "iter" => Box::new(CIter::<S>(self.0.iter())),
            "il" => Box::new(CSingle(self.0.iter_left())),
            _ => Box::new(CSingle(self.0.iter_right())),
        })
    }
    fn capacities(&self) -> (usize, usize) {
        (self.0.capacity(), self.0.capacity())
    }
    fn addresses(&self) -> Vec<(u8, u32, usize)> {
        
        let mut v: Vec<_> = self.0.iter_left().take(LIM).map(address).chain(self.0.iter_right().take(LIM).map(address)).collect();
        v.sort();
        v
    }
    fn drain_steps(&mut self, filter: Option<&Val>, var: u32) -> Vec<DrainStep> {
        let out;
        match filter {
            None => {
                let it = self.0.drain();
                out = steps(it, var, |it| Some(ExactSizeIterator::len(it)), pair_val);
            }
            Some(sel) => {
                let it = self.0.drain_filter(|l, r| sel.has(&key_pair(l, r)));
                out = steps(it, var, |_| None, pair_val);
            }
        }
        out
    }
}

fn op_item<X: Mark, A: Mark, B: Mark>(x: &OptionalPair<Tk<X>, (Tk<A>, Tk<B>)>) -> Val {
    op_val(x, |i| i.val(), pair_val)
}
fn op_ent<X: Mark, A: Mark, B: Mark>(x: &OptionalPair<Tk<X>, OptionalPair<Tk<A>, Tk<B>>>) -> Val {
    op_val(x, |i| i.val(), ent_val)
}
fn address<M: Mark>(x: &Tk<M>) -> (u8, u32, usize) {
    (x.q.side, x.q.key, x as *const Tk<M> as usize)
}

/// the first n items of an iterator, taken in various ways
fn taken<I: Iterator>(mut it: I, n: usize, var: u32, conv: impl Fn(&I::Item) -> Val) -> Vec<Val> {
    let more = it.size_hint().1.map_or(true, |m| m > n);
    let mut v = vec![];
    match var % 5 {
        0 | 1 => {
            for _ in 0..n {
                match it.next() {
                    Some(x) => v.push(conv(&x)),
                    None => break,
                }
            }
        }
        2 => v.extend(it.by_ref().take(n).map(|x| conv(&x))),
        3 if !more => return all_of(it, var / 5, |x| conv(&x)),
        _ if n > 0 => v = visit_some(&mut it, n, var / 5, |x| conv(&x)).0,
        _ => {}
    }
    v
}

pub enum DrainStep {
    Ask((usize, Option<usize>), Option<usize>),
    Next(Option<Val>),
    Nth(usize, Option<Val>),
    Visit(Vec<Val>, bool),
}
use DrainStep::*;
/// a draining iterator, used in various ways up to its end or dropped before
fn steps<I: Iterator>(mut it: I, var: u32, len: impl Fn(&I) -> Option<usize>, conv: impl Fn(&I::Item) -> Val) -> Vec<DrainStep> {
    let mut rng = Rng::new(var as u64 + 1);
    let mut out = vec![];
    let style = rng.below(4);
    let mut after_end = 0;
    while after_end < 3 && out.len() < 500 {
        out.push(Ask(it.size_hint(), len(&it)));
        let over = match if style == 0 { 0 } else { rng.below(24) } {
            0..=14 => {
                let x = it.next().as_ref().map(&conv);
                out.push(Next(x.clone()));
                x.is_none()
            }
            15..=18 => {
                let k = rng.below(4);
                let x = it.nth(k).as_ref().map(&conv);
                out.push(Nth(k, x.clone()));
                x.is_none()
            }
            19..=21 => {
                let (v, stopped) = visit_some(&mut it, 1 + rng.below(5), rng.below(10) as u32, |x| conv(&x));
                out.push(Visit(v, stopped));
                !stopped
            }
            22 => {
                // the rest at once, by value
                let v = all_of(it, rng.below(10) as u32, |x| conv(&x));
                out.push(Visit(v, false));
                return out;
            }
            // dropped
            _ => return out,
        };
        after_end += over as usize;
    }
    out
}

fn huge(var: u32) -> usize {
    match var % 3 {
        0 => usize::MAX,
        1 => usize::MAX / 2,
        _ => usize::MAX / 32,
    }
}

/// clone, and go on with the clone, the original, or a map assigned by clone_from
fn clone_op<T: Subject>(m: &mut T, var: u32) -> Val {
    let mut c = m.dup();
    if m.equal(&c) != (true, false) || c.equal(m) != (true, false) {
        return s("a clone is not equal to the original");
    }
    match var % 4 {
        0 => std::mem::swap(m, &mut c),
        1 => {}
        2 => {
            let old = std::mem::replace(m, c.dup());
            drop(c);
            drop(old);
        }
        _ => {
            c.dup_from(m);
            std::mem::swap(m, &mut c);
        }
    }
    Val::unit()
}

// ---------------------------------------------------------------- PartialCycleMap

pub struct Par<S: HB>(pub PartialCycleMap<Tk<S::A>, Tk<S::B>, S>);

impl<S: HB> Subject for Par<S> {
    const MAP: &'static str = "PartialCycleMap";
    fn fresh(cfg: &Cfg) -> Self {
        Par(S::partial(cfg))
    }
    fn apply(&mut self, c: &Call) -> Val {
        let m = &mut self.0;
        let a = |i: usize| c.a.at(i);
        
        match c.op.as_str() {
            "insert" => {
                let (x, y) = m.insert(item(0, a(0)), item(1, a(1)));
                L(vec![ent_val(&x), ent_val(&y)])
            }
            "insert_left" => ent_val(&m.insert_left(item(0, a(0)))),
            "insert_right" => ent_val(&m.insert_right(item(1, a(0)))),
            "pair" => B(m.pair(&lk(a(0)), &rk(a(1)))),
            "unpair" => B(m.unpair(&lk(a(0)), &rk(a(1)))),
            "pair_forced" => ent_ref(&m.pair_forced(&lk(a(0)), &rk(a(1)))),
            "pair_forced_remove" => ent_val(&m.pair_forced_remove(&lk(a(0)), &rk(a(1)))),
            "remove" => opt_pair_val(&m.remove(&lk(a(0)), &rk(a(1)))),
            "remove_left" => opt_val(&m.remove_left(&lk(a(0)))),
            "remove_right" => opt_val(&m.remove_right(&rk(a(0)))),
            "remove_via_left" => ent_val(&m.remove_via_left(&lk(a(0)))),
            "remove_via_right" => ent_val(&m.remove_via_right(&rk(a(0)))),
            "swap_left" => op_ent(&m.swap_left(&lk(a(0)), item(0, a(1)))),
            "swap_left_checked" => op_ent(&m.swap_left_checked(&lk(a(0)), &rk(a(1)), item(0, a(2)))),
            "swap_left_or_insert" => op_ent(&m.swap_left_or_insert(&lk(a(0)), item(0, a(1)), item(1, a(2)))),
            "swap_right" => op_ent(&m.swap_right(&rk(a(0)), item(1, a(1)))),
            "swap_right_checked" => op_ent(&m.swap_right_checked(&rk(a(0)), &lk(a(1)), item(1, a(2)))),
            "swap_right_or_insert" => op_ent(&m.swap_right_or_insert(&rk(a(0)), item(1, a(1)), item(0, a(2)))),
            "clear" => {
                m.clear();
                Val::unit()
            }
            "drain" => {
                let n = a(0).int() as usize;
                Val::set(taken(m.drain(), n, c.var, ent_val))
            }
            "drain_filter" => {
                let (sel, n) = (a(0), a(1).int() as usize);
                let mut seen = vec![];
                let v = {
                    let it = m.drain_filter(|e| {
                        seen.push(ent_ref(&e));
                        sel.has(&ent_key(&e))
                    });
                    taken(it, n, c.var, ent_val)
                };
                L(vec![Val::set(v), Val::set(seen)])
            }
            "drain_filter_forget" => {
                let (sel, n) = (a(0), a(1).int() as usize);
                let mut v = vec![];
                let mut it = m.drain_filter(|e| sel.has(&ent_key(&e)));
                for _ in 0..n {
                    match it.next() {
                        Some(x) => v.push(ent_val(&x)),
                        None => break,
                    }
                }
                std::mem::forget(it);
                Val::set(v)
            }
            "drain_filter_panic" => {
                let (sel, x, var) = (a(0), a(1), c.var);
                expecting_boom(|| {
                    let mut it = m.drain_filter(|e| {
                        let k = ent_key(&e);
                        if k == *x {
                            boom()
                        }
                        sel.has(&k)
                    });
                    for _ in 0..(var % 3) * 10 {
                        if it.next().is_none() {
                            break;
                        }
                    }
                })
            }
            "retain" => {
                let mut seen = vec![];
                m.retain(|e| {
                    seen.push(ent_ref(e));
                    a(0).has(&ent_key(e))
                });
                Val::set(seen)
            }
            "retain_paired" => {
                let mut seen = vec![];
                m.retain_paired(|l, r| {
                    seen.push(rpair(l, r));
                    a(0).has(&ent_key(&SomeBoth(l, r)))
                });
                Val::set(seen)
            }
            "retain_unpaired" => {
                let mut seen = vec![];
                m.retain_unpaired(|e| {
                    seen.push(ent_ref(e));
                    a(0).has(&ent_key(e))
                });
                Val::set(seen)
            }
            "retain_panic" => expecting_boom(|| {
                m.retain(|e| {
                    let k = ent_key(e);
                    if k == *a(1) {
                        boom()
                    }
                    a(0).has(&k)
                })
            }),
            "retain_paired_panic" => expecting_boom(|| {
                m.retain_paired(|l, r| {
                    let k = ent_key(&SomeBoth(l, r));
                    if k == *a(1) {
                        boom()
                    }
                    a(0).has(&k)
                })
            }),
            "retain_unpaired_panic" => expecting_boom(|| {
                m.retain_unpaired(|e| {
                    let k = ent_key(e);
                    if k == *a(1) {
                        boom()
                    }
                    a(0).has(&k)
                })
            }),
            "extend" => {
                m.extend(seq(pairs(a(0)), c.var));
                Val::unit()
            }
            "extend_opt" => {
                m.extend(seq(entries(a(0)), c.var));
                Val::unit()
            }
            "extend_panic" => {
                let it = then_boom(entries(a(0)), c.var);
                expecting_boom(|| m.extend(it))
            }
            "collect" => {
                *m = m.hasher().clone().collect_partial(pairs(a(0)));
                Val::unit()
            }
            "collect_opt" => {
                *m = m.hasher().clone().collect_partial_opt(entries(a(0)));
                Val::unit()
            }
            "clone" => clone_op(self, c.var),
            "reserve_left" => {
                m.reserve_left(a(0).int() as usize);
                ok()
            }
            "reserve_right" => {
                m.reserve_right(a(0).int() as usize);
                ok()
            }
            "try_reserve_left" => match m.try_reserve_left(a(0).int() as usize) {
                Ok(()) => ok(),
                Err(_) => s("refused"),
            },
            "try_reserve_right" => match m.try_reserve_right(a(0).int() as usize) {
                Ok(()) => ok(),
                Err(_) => s("refused"),
            },
            "try_reserve_huge" => {
                let r = if c.var % 2 == 0 { m.try_reserve_left(huge(c.var / 2)) } else { m.try_reserve_right(huge(c.var / 2)) };
                match r {
                    Ok(()) => s("accepted"),
                    Err(_) => ok(),
                }
            }
            "shrink_to_left" => {
                m.shrink_to_left(a(0).int() as usize);
                ok()
            }
            "shrink_to_right" => {
                m.shrink_to_right(a(0).int() as usize);
                ok()
            }
            "shrink_to_fit" => {
                m.shrink_to_fit();
                ok()
            }
            x => panic!("unknown operation {x}"),
        }
    }
    fn observe(&self, d: &Dom) -> Val {
        let m = &self.0;
        
        let kk = |side, key| Key { side, key };
        // ap cl cr empty gl gr il ip ir iter iu lenl lenr lp rp
        L(vec![
            map_over(d.nl, |i| map_over(d.nr, |j| B(m.are_paired(&Tk::probe(0, i), &Tk::probe(1, j))))),
            map_over(d.nl, |i| B(m.contains_left(&Tk::probe(0, i)))),
            map_over(d.nr, |j| B(m.contains_right(&Tk::probe(1, j)))),
            B(m.is_empty()),
            map_over(d.nr, |j| same_by_key(opt_ref(m.get_left(&Tk::probe(1, j))), opt_ref(m.get_left(&kk(1, j))))),
            map_over(d.nl, |i| same_by_key(opt_ref(m.get_right(&Tk::probe(0, i))), opt_ref(m.get_right(&kk(0, i))))),
            Val::set(m.iter_left().take(LIM).map(|x| x.val()).collect()),
            Val::set(m.iter_paired().take(LIM).map(|(l, r)| rpair(l, r)).collect()),
            Val::set(m.iter_right().take(LIM).map(|x| x.val()).collect()),
            Val::set(m.iter().take(LIM).map(|e| ent_ref(&e)).collect()),
            Val::set(m.iter_unpaired().take(LIM).map(|e| ent_ref(&e)).collect()),
            I(m.len_left() as i64),
            I(m.len_right() as i64),
            map_over(d.nl, |i| B(m.is_left_paired(&Tk::probe(0, i)))),
            map_over(d.nr, |j| B(m.is_right_paired(&Tk::probe(1, j)))),
        ])
    }
    fn contents(&self) -> Val {
        L(self.0.iter().take(LIM).map(|e| ent_ref(&e)).collect())
    }
    fn lookups(&self, l: u32, r: u32) -> Val {
        let m = &self.0;
        let (pl, pr) = (Tk::<S::A>::probe(0, l), Tk::<S::B>::probe(1, r));
        L(vec![
            I(l as i64),
            I(r as i64),
            B(m.contains_left(&pl)),
            B(m.contains_right(&pr)),
            same_by_key(opt_ref(m.get_right(&pl)), opt_ref(m.get_right(&pl.q))),
            same_by_key(opt_ref(m.get_left(&pr)), opt_ref(m.get_left(&pr.q))),
            B(m.are_paired(&pl, &pr)),
            B(m.is_left_paired(&pl)),
            B(m.is_right_paired(&pr)),
        ])
    }
    fn sizes(&self) -> Val {
        L(vec![I(self.0.len_left() as i64), I(self.0.len_right() as i64), B(self.0.is_empty())])
    }
    fn stored(&self) -> Vec<u32> {
        self.0.iter_left().take(LIM).filter_map(|x| x.inst()).chain(self.0.iter_right().take(LIM).filter_map(|x| x.inst())).collect()
    }
    fn dup(&self) -> Self {
        Par(self.0.clone())
    }
    fn dup_from(&mut self, o: &Self) {
        self.0.clone_from(&o.0)
    }
    fn equal(&self, o: &Self) -> (bool, bool) {
        (self.0 == o.0, self.0 != o.0)
    }
    fn debug(&self, pretty: bool) -> String {
        if pretty { format!("{:#?}", self.0) } else { format!("{:?}", self.0) }
    }
    fn iter_kinds() -> &'static [&'static str] {
        &["iter", "ip", "iu", "il", "ir"]
    }
    fn open<'a>(&'a self, kind: &str, _: u32) -> Option<Box<dyn It<'a> + 'a>> {
        Some(match kind {
            "iter" => Box::new(PIter::<S>(self.0.iter())),
            "ip" => Box::new(PPaired::<S>(self.0.iter_paired())),
            "iu" => Box::new(PUnpaired::<S>(self.0.iter_unpaired())),
            "il" => Box::new(PSingle(self.0.iter_left())),
            _ => Box::new(PSingle(self.0.iter_right())),
        })
    }
    fn capacities(&self) -> (usize, usize) {
        (self.0.capacity_left(), self.0.capacity_right())
    }
    fn addresses(&self) -> Vec<(u8, u32, usize)> {
        
        let mut v: Vec<_> = self.0.iter_left().take(LIM).map(address).chain(self.0.iter_right().take(LIM).map(address)).collect();
        v.sort();
        v
    }
    fn drain_steps(&mut self, filter: Option<&Val>, var: u32) -> Vec<DrainStep> {
        let out;
        match filter {
            None => {
                let it = self.0.drain();
                out = steps(it, var, |it| Some(ExactSizeIterator::len(it)), ent_val);
            }
            Some(sel) => {
                let it = self.0.drain_filter(|e| sel.has(&ent_key(&e)));
                out = steps(it, var, |_| None, ent_val);
            }
        }
        out
    }
}

// ---------------------------------------------------------------- GroupMap

pub struct Gro<S: HB>(pub GroupMap<Tk<S::A>, Tk<S::B>, S>);

impl<S: HB> Subject for Gro<S> {
    const MAP: &'static str = "GroupMap";
    fn fresh(cfg: &Cfg) -> Self {
        Gro(S::group(cfg))
    }
    fn apply(&mut self, c: &Call) -> Val {
        let m = &mut self.0;
        let a = |i: usize| c.a.at(i);
        match c.op.as_str() {
            "insert" => {
                let () = m.insert(item(0, a(0)), item(1, a(1)));
                Val::unit()
            }
            "insert_left" => opt_val(&m.insert_left(item(0, a(0)), &rk(a(1)))),
            "insert_right" => group_val(&m.insert_right(item(1, a(0)))),
            "insert_remove" => {
                let (x, y) = m.insert_remove(item(0, a(0)), item(1, a(1)));
                L(vec![opt_val(&x), group_val(&y)])
            }
            "pair" => B(m.pair(&lk(a(0)), &rk(a(1)))),
            "swap_right" => {
                let () = m.swap_right(&rk(a(0)), item(1, a(1)));
                Val::unit()
            }
            "swap_right_remove" => opt_val(&m.swap_right_remove(&rk(a(0)), item(1, a(1)))),
            "remove" => group_val(&m.remove(&lk(a(0)), &rk(a(1)))),
            "remove_left" => opt_val(&m.remove_left(&lk(a(0)))),
            "remove_right" => group_val(&m.remove_right(&rk(a(0)))),
            "clear" => {
                m.clear();
                Val::unit()
            }
            "retain_paired" => {
                let mut seen = vec![];
                m.retain_paired(|l, r| {
                    seen.push(rpair(l, r));
                    a(0).has(&key_pair(l, r))
                });
                Val::set(seen)
            }
            "retain_unpaired" => {
                let mut seen = vec![];
                m.retain_unpaired(|r| {
                    seen.push(r.val());
                    a(0).has(&r.kval())
                });
                Val::set(seen)
            }
            "retain_paired_panic" => expecting_boom(|| {
                m.retain_paired(|l, r| {
                    let k = key_pair(l, r);
                    if k == *a(1) {
                        boom()
                    }
                    a(0).has(&k)
                })
            }),
            "retain_unpaired_panic" => expecting_boom(|| {
                m.retain_unpaired(|r| {
                    let k = r.kval();
                    if k == *a(1) {
                        boom()
                    }
                    a(0).has(&k)
                })
            }),
            "extend" => {
                m.extend(seq(pairs(a(0)), c.var));
                Val::unit()
            }
            "extend_opt" => {
                m.extend(seq(opt_pairs(a(0)), c.var));
                Val::unit()
            }
            "extend_panic" => {
                let it = then_boom(opt_pairs(a(0)), c.var);
                expecting_boom(|| m.extend(it))
            }
            "collect" => {
                *m = m.hasher().clone().collect_group(pairs(a(0)));
                Val::unit()
            }
            "collect_opt" => {
                *m = m.hasher().clone().collect_group_opt(opt_pairs(a(0)));
                Val::unit()
            }
            "clone" => clone_op(self, c.var),
            x => panic!("unknown operation {x}"),
        }
    }
    fn observe(&self, d: &Dom) -> Val {
        let m = &self.0;
        
        let kk = |side, key| Key { side, key };
        let gli = |x: Option<gm::PairIter<'_, Tk<S::A>, Tk<S::B>, S>>| match x {
            None => L(vec![]),
            Some(it) => L(vec![Val::set(it.take(LIM).map(|x| x.val()).collect())]),
        };
        // ap cl cr empty gli gr il ip ir iter iu lenl lenr rp
        L(vec![
            map_over(d.nl, |i| map_over(d.nr, |j| B(m.are_paired(&Tk::probe(0, i), &Tk::probe(1, j))))),
            map_over(d.nl, |i| B(m.contains_left(&Tk::probe(0, i)))),
            map_over(d.nr, |j| B(m.contains_right(&Tk::probe(1, j)))),
            B(m.is_empty()),
            map_over(d.nr, |j| same_by_key(gli(m.get_left_iter(&Tk::probe(1, j))), gli(m.get_left_iter(&kk(1, j))))),
            map_over(d.nl, |i| same_by_key(opt_ref(m.get_right(&Tk::probe(0, i))), opt_ref(m.get_right(&kk(0, i))))),
            Val::set(m.iter_left().take(LIM).map(|x| x.val()).collect()),
            Val::set(m.iter_paired().take(LIM).map(|(l, r)| rpair(l, r)).collect()),
            Val::set(m.iter_right().take(LIM).map(|x| x.val()).collect()),
            Val::set(m.iter().take(LIM).map(|(l, r)| L(vec![opt_ref(l), r.val()])).collect()),
            Val::set(m.iter_unpaired().take(LIM).map(|x| x.val()).collect()),
            I(m.len_left() as i64),
            I(m.len_right() as i64),
            map_over(d.nr, |j| B(m.is_right_paired(&Tk::probe(1, j)))),
        ])
    }
    fn contents(&self) -> Val {
        L(self.0.iter().take(LIM).map(|(l, r)| L(vec![opt_ref(l), r.val()])).collect())
    }
    fn lookups(&self, l: u32, r: u32) -> Val {
        let m = &self.0;
        let (pl, pr) = (Tk::<S::A>::probe(0, l), Tk::<S::B>::probe(1, r));
        let gli = |x: Option<gm::PairIter<'_, Tk<S::A>, Tk<S::B>, S>>| match x {
            None => L(vec![]),
            Some(it) => L(vec![L(it.take(LIM).map(|x| x.val()).collect())]),
        };
        L(vec![
            I(l as i64),
            I(r as i64),
            B(m.contains_left(&pl)),
            B(m.contains_right(&pr)),
            same_by_key(opt_ref(m.get_right(&pl)), opt_ref(m.get_right(&pl.q))),
            same_by_key(gli(m.get_left_iter(&pr)), gli(m.get_left_iter(&pr.q))),
            B(m.are_paired(&pl, &pr)),
            B(m.is_right_paired(&pr)),
        ])
    }
    fn sizes(&self) -> Val {
        L(vec![I(self.0.len_left() as i64), I(self.0.len_right() as i64), B(self.0.is_empty())])
    }
    fn stored(&self) -> Vec<u32> {
        self.0.iter_left().take(LIM).filter_map(|x| x.inst()).chain(self.0.iter_right().take(LIM).filter_map(|x| x.inst())).collect()
    }
    fn dup(&self) -> Self {
        Gro(self.0.clone())
    }
    fn dup_from(&mut self, o: &Self) {
        self.0.clone_from(&o.0)
    }
    fn equal(&self, o: &Self) -> (bool, bool) {
        (self.0 == o.0, self.0 != o.0)
    }
    fn debug(&self, pretty: bool) -> String {
        if pretty { format!("{:#?}", self.0) } else { format!("{:?}", self.0) }
    }
    fn iter_kinds() -> &'static [&'static str] {
        &["iter", "ip", "iu", "il", "ir", "gli"]
    }
    fn open<'a>(&'a self, kind: &str, key: u32) -> Option<Box<dyn It<'a> + 'a>> {
        Some(match kind {
            "iter" => Box::new(GIter::<S>(self.0.iter())),
            "ip" => Box::new(GPaired::<S>(self.0.iter_paired())),
            "iu" => Box::new(GUnpaired::<S>(self.0.iter_unpaired())),
            "il" => Box::new(GLeft(self.0.iter_left())),
            "ir" => Box::new(GRight(self.0.iter_right())),
            _ => Box::new(GPairIter::<S>(self.0.get_left_iter(&Tk::probe(1, key))?)),
        })
    }
    fn capacities(&self) -> (usize, usize) {
        (self.0.capacity_left(), self.0.capacity_right())
    }
    fn addresses(&self) -> Vec<(u8, u32, usize)> {
        
        let mut v: Vec<_> = self.0.iter_left().take(LIM).map(address).chain(self.0.iter_right().take(LIM).map(address)).collect();
        v.sort();
        v
    }
    fn drain_steps(&mut self, _: Option<&Val>, _: u32) -> Vec<DrainStep> {
        vec![]
    }
}
