"""Which specifications and which parts of the harness decide a property."""
MAPS = ["CycleMap", "PartialCycleMap", "GroupMap"]
ONE = {"C": ["CycleMap"], "P": ["PartialCycleMap"], "G": ["GroupMap"]}
FAMILY = ["C02", "C03", "C04", "C05", "P02", "P03", "P04", "P05", "P06", "G02", "G03", "G04", "G05"]
ALL = (["C0%d" % i for i in range(1, 6)] + ["P0%d" % i for i in range(1, 7)]
       + ["G0%d" % i for i in range(1, 6)] + ["X%02d" % i for i in range(1, 11)])

def maps(prop):
    if prop == "X06":
        return ["CycleMap"]
    if prop == "X10":
        return []
    return ONE.get(prop[0], MAPS)

def tables(prop, tier):
    """(table name, map) pairs to export from the specification"""
    out = []
    if prop in ("X03", "X09b"):
        return out
    for m in maps(prop):
        if prop == "X02":
            kinds = ["", "Tagged"]
        elif tier == "thorough":
            kinds = ["", "Tagged", "Seq", "Big", "TaggedBig"]
        else:
            kinds = ["", "Tagged", "Seq"]
        out += [(m + k, m) for k in kinds]
    return out

def equalities(prop):
    if prop not in ("X01", "X02", "X07"):
        return []
    short = {"CycleMap": "CycleEq", "PartialCycleMap": "PartialCycleEq", "GroupMap": "GroupEq"}
    return [(m + k, short[m] + k) for m in maps(prop) for k in ("", "Tagged")]

def designs(prop, tier):
    """(configuration, module) of the design models: that the maps' algorithms, on two hash tables that
    refer to each other, refine their specifications under every hash function"""
    if prop in ("X03", "X06", "X10"):
        return []
    big = "Big" if tier == "thorough" else ""
    return [(f"{m}Impl{big}", f"{m}ImplMC") for m in maps(prop)]
