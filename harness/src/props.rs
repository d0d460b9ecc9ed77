//! Which property speaks about which operations.
pub struct Prop {
    pub maps: &'static [&'static str],
    pub kind: PKind,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PKind {
    /// results and effects of a family of operations
    Family,
    /// whatever is observed is some legal contents
    Consistency,
    /// independence of hash values
    Hash,
    Equality,
    Iterators,
    Conservation,
    Clone,
    NoPanic,
    Capacity,
    Optional,
}
impl Prop {
    /// not about where the calls lead, only about what holds wherever they lead
    pub fn lenient(&self) -> bool {
        matches!(self.kind, Consistency | NoPanic | Conservation)
    }
}
use PKind::*;
pub const ALL: &[&str] = &["CycleMap", "PartialCycleMap", "GroupMap"];

pub fn prop(id: &str) -> Prop {
    let (maps, kind): (&'static [&'static str], PKind) = match id {
        "C01" => (&["CycleMap"], Consistency),
        "P01" => (&["PartialCycleMap"], Consistency),
        "G01" => (&["GroupMap"], Consistency),
        "C02" | "C03" | "C04" | "C05" | "X06" => (&["CycleMap"], Family),
        "P02" | "P03" | "P04" | "P05" | "P06" => (&["PartialCycleMap"], Family),
        "G02" | "G03" | "G04" | "G05" => (&["GroupMap"], Family),
        // every call, for development
        "ANY" => (ALL, Family),
        "X08" => (ALL, Family),
        "X01" => (ALL, Hash),
        "X02" => (ALL, Equality),
        "X03" => (ALL, Iterators),
        "X04" => (ALL, Conservation),
        "X05" => (ALL, Clone),
        "X07" => (ALL, NoPanic),
        "X09" => (ALL, Capacity),
        "X10" => (&[], Optional),
        _ => panic!("unknown property {id}"),
    };
    Prop { maps, kind }
}

/// the operations a property speaks about; None: all of them
pub fn in_family(id: &str, map: &str, op: &str) -> bool {
    let insertion = matches!(op, "insert" | "insert_left" | "insert_right" | "insert_remove" | "extend" | "extend_opt" | "collect" | "collect_opt");
    let swap = op.starts_with("swap_");
    let panics = op.ends_with("_panic") || op == "drain_filter_forget";
    let remove = op.starts_with("remove");
    let retain = op.starts_with("retain") || op == "drain" || op == "drain_filter" || op == "clear";
    let capacity = op.starts_with("reserve") || op.starts_with("try_reserve") || op.starts_with("shrink");
    let serde = op.starts_with("deserialize") || op == "round_trip";
    match (id, map) {
        ("C02", "CycleMap") | ("P02", "PartialCycleMap") | ("G02", "GroupMap") => insertion,
        ("C03", "CycleMap") | ("P04", "PartialCycleMap") | ("G04", "GroupMap") => remove,
        ("C04", "CycleMap") | ("P05", "PartialCycleMap") => swap,
        ("G03", "GroupMap") => swap || op == "pair",
        ("P03", "PartialCycleMap") => matches!(op, "pair" | "unpair" | "pair_forced" | "pair_forced_remove"),
        ("C05", "CycleMap") | ("P06", "PartialCycleMap") | ("G05", "GroupMap") => retain && !panics,
        ("X05", _) => op == "clone",
        ("X06", "CycleMap") => serde,
        ("X08", _) => panics,
        ("X09", _) => capacity || op == "clear" || op == "drain",
        ("C01", "CycleMap") | ("P01", "PartialCycleMap") | ("G01", "GroupMap") => true,
        ("X01", _) | ("X04", _) | ("X07", _) | ("ANY", _) => true,
        _ => false,
    }
}
pub fn is_insertion_prop(id: &str) -> bool {
    matches!(id, "C02" | "P02" | "G02" | "ANY")
}
pub fn prop_kind(id: &str) -> PKind {
    prop(id).kind
}
/// properties about some operations only: their histories consist of insertions and those
pub fn prop_is_family(id: &str) -> bool {
    matches!(prop(id).kind, PKind::Family)
}
