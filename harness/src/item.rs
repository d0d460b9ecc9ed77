//! Tracked items, and hash builders whose collisions can be chosen.
use crate::val::{mix, Val, Val::*};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::marker::PhantomData;

/// The borrowed form of an item: what equality and hashing look at.
#[derive(Clone, Copy, Debug)]
pub struct Key {
    pub side: u8,
    pub key: u32,
}

/// An item. Equality is equality of keys; the tag tells copies apart for the specification,
/// and the mark may follow one Rust value from creation to drop.
pub struct Tk<M: Mark = Tracked> {
    pub q: Key,
    pub tag: u32,
    pub mark: M,
}
pub trait Mark: Clone + 'static {
    fn new() -> Self;
    fn probe() -> Self;
    /// the number of the instance, if it is followed
    fn inst(&self) -> Option<u32>;
}
/// followed by its number
pub struct Tracked(u32);
/// an item without a destructor
#[derive(Clone, Copy)]
pub struct Plain;
impl Mark for Plain {
    fn new() -> Plain {
        Plain
    }
    fn probe() -> Plain {
        Plain
    }
    fn inst(&self) -> Option<u32> {
        None
    }
}
impl Mark for Tracked {
    fn new() -> Tracked {
        Tracked(register())
    }
    fn probe() -> Tracked {
        Tracked(UNTRACKED)
    }
    fn inst(&self) -> Option<u32> {
        (self.0 != UNTRACKED).then_some(self.0)
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Tracked {
        Tracked::new()
    }
}

const UNTRACKED: u32 = u32::MAX;

#[derive(Default)]
pub struct Tracker {
    alive: Vec<bool>,
    pub live: usize,
    pub errors: Vec<String>,
}
thread_local! {
    static TRACK: RefCell<Tracker> = RefCell::new(Tracker::default());
}

pub fn track_reset() {
    TRACK.with(|t| *t.borrow_mut() = Tracker::default());
}
pub fn track_live() -> usize {
    TRACK.with(|t| t.borrow().live)
}
pub fn track_errors() -> Vec<String> {
    TRACK.with(|t| t.borrow().errors.clone())
}
pub fn track_has_errors() -> bool {
    TRACK.with(|t| !t.borrow().errors.is_empty())
}
pub fn is_alive(inst: u32) -> bool {
    TRACK.with(|t| t.borrow().alive.get(inst as usize).copied().unwrap_or(false))
}
fn register() -> u32 {
    TRACK.with(|t| {
        let mut t = t.borrow_mut();
        t.alive.push(true);
        t.live += 1;
        (t.alive.len() - 1) as u32
    })
}

impl<M: Mark> Tk<M> {
    pub fn new(side: u8, key: u32, tag: u32) -> Self {
        Tk { q: Key { side, key }, tag, mark: M::new() }
    }
    /// An item used only as a lookup argument
    pub fn probe(side: u8, key: u32) -> Self {
        Tk { q: Key { side, key }, tag: 9999, mark: M::probe() }
    }
    pub fn inst(&self) -> Option<u32> {
        self.mark.inst()
    }
    pub fn val(&self) -> Val {
        if self.inst().is_some_and(|i| !is_alive(i)) {
            TRACK.with(|t| t.borrow_mut().errors.push(format!("item {:?} seen after its drop", self.q)));
        }
        L(vec![I(self.q.key as i64), I(self.tag as i64)])
    }
    pub fn kval(&self) -> Val {
        I(self.q.key as i64)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        if self.0 == UNTRACKED {
            return;
        }
        let inst = self.0;
        let _ = TRACK.try_with(|t| {
            let mut t = t.borrow_mut();
            match t.alive.get_mut(inst as usize) {
                Some(a) if *a => {
                    *a = false;
                    t.live -= 1;
                }
                _ => t.errors.push("an item was dropped twice".into()),
            }
        });
    }
}
impl<M: Mark> Clone for Tk<M> {
    fn clone(&self) -> Self {
        Tk { q: self.q, tag: self.tag, mark: self.mark.clone() }
    }
}
impl<M: Mark> fmt::Debug for Tk<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "\u{ab}{} {} {}\u{bb}", self.q.side, self.q.key, self.tag)
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.key == o.key
    }
}
impl Eq for Key {}
impl<M: Mark> PartialEq for Tk<M> {
    fn eq(&self, o: &Self) -> bool {
        self.q.key == o.q.key
    }
}
impl<M: Mark> Eq for Tk<M> {}
impl<M: Mark> PartialEq<Tk<M>> for Key {
    fn eq(&self, o: &Tk<M>) -> bool {
        self.key == o.q.key
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(((self.side as u64) << 40) | self.key as u64)
    }
}
impl<M: Mark> Hash for Tk<M> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.q.hash(h)
    }
}
impl<M: Mark> Borrow<Key> for Tk<M> {
    fn borrow(&self) -> &Key {
        &self.q
    }
}
impl<M: Mark> Serialize for Tk<M> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.q.side, self.q.key, self.tag).serialize(s)
    }
}
impl<'de, M: Mark> Deserialize<'de> for Tk<M> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (side, key, tag) = <(u8, u32, u32)>::deserialize(d)?;
        Ok(Tk::new(side, key, tag))
    }
}

/// How hashes are assigned to items.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// all different, left and right unrelated
    Good,
    /// all different, equal keys on the left and right hash alike
    SameSides,
    /// one constant
    Zero,
    Max,
    /// two classes
    Mod2,
    /// the key itself
    Identity,
    /// few random classes over both sides together
    Classes,
    /// only the top byte differs / only the low bits differ
    High,
    Low,
    /// lefts collide with each other and rights do not, and vice versa
    LeftZero,
    RightZero,
    /// a hash function of the specification, see `given`
    Given,
}
/// A hash function given by the classes of the left and right keys 1, 2, ... (keys beyond have
/// classes of their own), as the seed of a `Mode::Given`. The style says how different hashes differ:
/// 0 everywhere, 1 not in the top bits, 2 only in the top bits; `alike` lets left and right items of
/// one class hash alike.
pub fn given(left: &[u64], right: &[u64], style: u64, alike: bool) -> Hb {
    let pack = |c: &[u64]| c.iter().take(8).enumerate().fold(0, |a, (i, x)| a | (x & 7) << (3 * i));
    Hb { mode: Mode::Given, seed: pack(left) | pack(right) << 24 | (style % 3) << 48 | (alike as u64) << 50 }
}
pub const MODES: [Mode; 11] = [
    Mode::Good,
    Mode::SameSides,
    Mode::Zero,
    Mode::Max,
    Mode::Mod2,
    Mode::Identity,
    Mode::Classes,
    Mode::High,
    Mode::Low,
    Mode::LeftZero,
    Mode::RightZero,
];
impl Mode {
    pub fn sane(self) -> bool {
        matches!(self, Mode::Good | Mode::SameSides)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hb {
    pub mode: Mode,
    pub seed: u64,
}
thread_local! {
    static DEFAULT_HB: RefCell<Hb> = const { RefCell::new(Hb { mode: Mode::Good, seed: 0 }) };
}
impl Default for Hb {
    fn default() -> Hb {
        DEFAULT_HB.with(|h| *h.borrow())
    }
}
pub fn set_default_hb(h: Hb) {
    DEFAULT_HB.with(|d| *d.borrow_mut() = h);
}
pub struct HbHasher {
    hb: Hb,
    acc: u64,
}
/// The hash builder of maps of items with these marks
pub struct Hx<A, B>(pub Hb, pub PhantomData<(A, B)>);
impl<A, B> Clone for Hx<A, B> {
    fn clone(&self) -> Self {
        Hx(self.0, PhantomData)
    }
}
impl<A, B> Default for Hx<A, B> {
    fn default() -> Self {
        Hx(Hb::default(), PhantomData)
    }
}
impl<A, B> BuildHasher for Hx<A, B> {
    type Hasher = HbHasher;
    fn build_hasher(&self) -> HbHasher {
        HbHasher { hb: self.0, acc: 0 }
    }
}
impl Hasher for HbHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.acc = mix(self.acc ^ *x as u64).wrapping_add(1);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.acc = x;
    }
    fn finish(&self) -> u64 {
        let (x, seed) = (self.acc, self.hb.seed);
        let key = x & 0xffff_ffff;
        let side = x >> 40;
        let h = |v: u64| mix(mix(v.wrapping_add(seed)).wrapping_add(seed));
        match self.hb.mode {
            Mode::Good => h(x),
            Mode::SameSides => h(key),
            Mode::Zero => 0,
            Mode::Max => u64::MAX,
            Mode::Mod2 => key % 2,
            Mode::Identity => key,
            Mode::Classes => h(1000 + h(x) % 3),
            Mode::High => key << 57,
            Mode::Low => key & 0xff,
            Mode::LeftZero => if side == 0 { 0 } else { h(key) },
            Mode::RightZero => if side == 1 { 0 } else { h(key) },
            Mode::Given => {
                let at = if side == 1 { seed >> 24 } else { seed };
                let class = if (1..=8).contains(&key) { at >> (3 * (key - 1)) & 7 } else { 0 };
                let class = if class == 0 { 8 + key } else { class };
                let class = if side == 1 && seed >> 50 & 1 == 0 { class + 100 } else { class };
                match seed >> 48 & 3 {
                    0 => mix(class),
                    1 => class,
                    _ => class << 57,
                }
            }
        }
    }
}
