//! Untyped values exchanged with TLC: integers, booleans, strings and lists.
use serde_json::Value;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Val {
    I(i64),
    B(bool),
    S(String),
    L(Vec<Val>),
}
pub use Val::*;

pub fn s(x: &str) -> Val {
    S(x.to_string())
}

impl Val {
    pub fn unit() -> Val {
        L(vec![])
    }
    pub fn list(&self) -> &Vec<Val> {
        match self {
            L(v) => v,
            _ => panic!("list expected: {:?}", self),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            I(i) => *i,
            _ => panic!("int expected: {:?}", self),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            S(s) => s,
            _ => panic!("string expected: {:?}", self),
        }
    }
    pub fn at(&self, i: usize) -> &Val {
        &self.list()[i]
    }
    pub fn has(&self, x: &Val) -> bool {
        self.list().contains(x)
    }
    pub fn from_json(v: &Value) -> Val {
        match v {
            Value::Bool(b) => B(*b),
            Value::Number(n) => I(n.as_i64().expect("integer")),
            Value::String(s) => S(s.clone()),
            Value::Array(a) => L(a.iter().map(Val::from_json).collect()),
            Value::Object(o) => L(o.values().map(Val::from_json).collect()),
            Value::Null => Val::unit(),
        }
    }
    pub fn to_json(&self) -> Value {
        match self {
            I(i) => Value::from(*i),
            B(b) => Value::from(*b),
            S(s) => Value::from(s.as_str()),
            L(v) => Value::Array(v.iter().map(Val::to_json).collect()),
        }
    }
    /// A list that stands for a set
    pub fn set(mut v: Vec<Val>) -> Val {
        v.sort();
        L(v)
    }
    pub fn sorted(self) -> Val {
        match self {
            L(v) => Val::set(v),
            x => x,
        }
    }
}

impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            I(i) => write!(f, "{i}"),
            B(b) => write!(f, "{b}"),
            S(s) => write!(f, "{s}"),
            L(v) => {
                write!(f, "<")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ",")?;
                    }
                    write!(f, "{x}")?;
                }
                write!(f, ">")
            }
        }
    }
}

/// Small deterministic random generator
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.next() % 100 < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
pub fn mix(x: u64) -> u64 {
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
