"""Wrong designs that TLC must reject: what the specification's checks are worth.
`python3 lib/controls.py` runs all of them; the thorough checks of X01 and X09 run their own."""
import os, shutil, sys, tempfile
import runner
from runner import ToolError

DESIGNS = {
    "CycleMap": ["by_hash", "ids_from_length", "paired_by_hash", "swap_self", "swap_keeps_hash", "drain_left_only"],
    "PartialCycleMap": ["unpair_keeps_id", "unpair_by_hash", "forced_keeps_id", "insert_left_no_id", "swap_keeps_hash"],
    "GroupMap": ["reinsert", "paired_by_hash", "swap_one_way", "retain_left_only"],
}

def rejected(work, name, module, cfg):
    rc, secs, out = runner.tlc(work, name, f"{runner.VERIF}/spec/mc/{module}.tla", cfg, heap="2g")
    text = open(out, errors="replace").read()
    bad = [l for l in text.splitlines() if "is violated" in l]
    if rc not in (12, 13) or not bad:
        raise ToolError(f"TLC does not reject the control {name}:\n{text[-1500:]}")
    return f"{name}: {bad[0].strip()}"

def design(work, map_, variant):
    src = open(f"{runner.VERIF}/spec/mc/{map_}Impl.cfg").read()
    cfg = f"{work}/{map_}-{variant}.cfg"
    assert 'Variant = ""' in src
    with open(cfg, "w") as f:
        f.write(src.replace('Variant = ""', f'Variant = "{variant}"'))
    return rejected(work, f"{map_}-{variant}", f"{map_}ImplMC", cfg)

def jobs(prop):
    """the controls of a property, as functions of the work directory"""
    out = []
    if prop == "X01":
        out += [lambda w, m=m, v=v: design(w, m, v) for m, vs in DESIGNS.items() for v in vs]
    if prop == "X09":
        out += [lambda w: rejected(w, "HashTableLeft", "HashTableMC", f"{runner.VERIF}/spec/mc/HashTableLeft.cfg")]
    return out

if __name__ == "__main__":
    work = tempfile.mkdtemp(prefix="controls-")
    try:
        for p in ("X01", "X09"):
            for j in jobs(p):
                print(j(work), flush=True)
    finally:
        shutil.rmtree(work)
