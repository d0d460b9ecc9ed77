"""Binding B: long recorded histories of the real maps, judged by TLC against the specification
(spec/trace).  The harness records, TLC decides; this file attributes what TLC rejects."""
import json, os, re, time
import plan, runner
from runner import ToolError

VERDICT = re.compile(r'^"V (.*)"$')
COUNT = re.compile(r'^"C (\d+)"$')
# not about where the calls lead, only about what holds wherever they lead (as in harness/src/props.rs)
LENIENT = ("C01", "P01", "G01", "X04", "X07")
INSERTING = ("C02", "P02", "G02")
SANE = [{"hasher": m, "seed": 77 + s} for s in range(3) for m in ("Good", "SameSides")]

def files(prop, tier):
    """(map, number of files, events per file)"""
    ms = plan.maps(prop)
    if prop == "X10":
        return []
    if prop == "X03":
        return [(m, 8 if tier == "thorough" else 2, 12000 if tier == "thorough" else 1800) for m in ms]
    if tier == "thorough":
        return [(m, 24 // len(ms), 20000) for m in ms]
    if prop == "X09":
        return [(m, 3 if m == "CycleMap" else 2, 3500) for m in ms]
    return [(m, 6 // len(ms), 2500) for m in ms]

# lives of big maps in the i-th recording: how many, and the number of entries they start with
BIG = [(4, 270), (2, 1100), (3, 520), (1, 4300), (4, 330), (3, 700)]
def big(prop, map_, tier, i):
    n, size = BIG[i % len(BIG)]
    if prop == "X06" and size > 4000:
        size = 9000
    if map_ != "CycleMap" and size > 1500:
        n, size = 2, 1500
    if prop in ("C05", "P06", "G05"):
        n, size = max(n, 3), max(size, 600)
    if prop == "X05":
        n, size = n + 2, max(size, 600)
    if tier == "thorough":
        n *= 5
    return n, size

def validate(run, name, map_, path, timeout=600):
    """TLC over one trace; returns its verdicts [(line, kind, before, afters, more)]."""
    rc, secs, out = runner.tlc(run.work, name, f"{runner.VERIF}/spec/trace/{map_}Trace.tla",
                               f"{runner.VERIF}/spec/trace/Trace.cfg", heap="2g", env={"TRACE": path, "LENIENT": "yes" if run.prop in LENIENT else "no"}, timeout=timeout)
    verdicts, count = [], None
    for line in open(out, errors="replace"):
        m = VERDICT.match(line)
        if m:
            verdicts.append(json.loads(json.loads('"' + m.group(1) + '"')))
        m = COUNT.match(line)
        if m:
            count = int(m.group(1))
    if rc != 0 or count is None:
        keep = f"{runner.VERIF}/evidence/tlc-{name}.log"
        os.replace(out, keep)
        raise ToolError(f"TLC could not judge the trace {name} (log: {keep})")
    return verdicts, count

class Crash(Exception):
    def __init__(self, op, what, episode):
        self.op, self.what, self.episode = op, what, episode

def recorder(run, exe, args, path, hang=30, timeout=300):
    rc, out = runner.harness(exe, ["record", "--prop", run.prop, "--out", path, "--hang", str(hang)] + args, timeout)
    if rc == 0:
        return
    if rc == 3:
        v = json.load(open(path + ".hang"))
        op = v["calls"][-1]["op"] if v["calls"] else "(new)"
        raise Crash(op, f"{op} does not return", v)
    if rc is None or rc == 101:
        raise ToolError("the recorder failed: " + out[-1500:])
    # the process was killed: find the call
    j = path + ".journal"
    rc2, out = runner.harness(exe, ["record", "--prop", run.prop, "--out", path, "--journal", j] + args, timeout * 2)
    v = runner.journal_tail(j)
    if rc2 == 0 or v is None:
        raise ToolError(f"the recorder was ended by signal {rc}, and not again")
    op = v["calls"][-1]["op"] if v["calls"] else "(new)"
    raise Crash(op, f"the process is ended (status {rc2}) by {op}", v)

def scripted(run, exe, episodes, name, kind=None):
    """Record the episodes of a script again and judge them: per episode its first verdict (of a kind)
    or None, as (number of events until then, verdict)."""
    if not episodes:
        return []
    path = f"{run.work}/{name}.ndjson"
    json.dump(episodes, open(f"{run.work}/{name}.script", "w"))
    recorder(run, exe, ["--script", f"{run.work}/{name}.script"], path, hang=10)
    verdicts, _ = validate(run, name, episodes[0]["map"], path)
    starts = [i + 1 for i, l in enumerate(open(path)) if '"op":"new"' in l and json.loads(l)["op"] == "new"]
    out = [None] * len(episodes)
    for v in verdicts:
        if v[1] == "outside" or (kind and v[1] != kind):
            continue
        e = max(i for i, s in enumerate(starts) if s <= v[0])
        if out[e] is None:
            out[e] = (v[0] - starts[e], v)
    os.unlink(path)
    return out

def episode_of(lines, at):
    """the script of the episode of line `at` (1-based), up to that line"""
    i = at - 1
    while lines[i]["op"] != "new":
        i -= 1
    keep = ("op", "h", "to", "a", "var", "look", "full")
    return {"map": lines[i]["map"], "cfg": lines[i]["cfg"],
            "events": [{k: l[k] for k in keep} for l in lines[i + 1:at]]}

def built(map_, shown):
    """events that build the contents by insertions"""
    ev = []
    def add(op, *a):
        ev.append({"op": op, "h": 0, "to": 0, "a": list(a), "var": 0, "look": [], "full": False})
    p, ul, ur = shown
    if len(p) > 400:
        add("extend", p)
        p = []
    for l, r in p:
        add("insert", l, r)
    for l in ul:
        add("insert_left", l)
    for r in ur:
        add("insert_right", r)
    p = shown[0]
    if ev:
        ev[-1]["full"] = True
        ev[-1]["look"] = [[l[0], r[0]] for l, r in p[:8]] + [[x[0], 1] for x in ul[:4]] + [[1, x[0]] for x in ur[:4]]
    return ev

def readable(ep):
    def f(e):
        if e["op"] in ("fork", "rebuild", "eq"):
            return f"{e['op']}({e['h']}, {e['to']})"
        return f"[{e['h']}] {e['op']}({', '.join(json.dumps(x) for x in e['a'])})"
    return [f(e) for e in ep["events"]]

def family_event(prop, map_, e):
    ops = [c[0] for c in e["a"][1]] if e["op"] == "repeat" else [e["op"]]
    return any(family_op(prop, map_, op) for op in ops)

def family_op(prop, map_, op):
    return runner.in_family(prop, op) and (len(plan.maps(prop)) > 1 or map_ in plan.maps(prop))

def lineage(ep, h):
    """the calls that handle h has seen, itself and as the map it was cloned from"""
    out = []
    for e in reversed(ep["events"]):
        if e["op"] in ("fork", "rebuild") and e["to"] == h:
            h = e["h"]
        elif e["op"] not in ("fork", "rebuild", "eq", "drop", "clone", "iterate") and e["h"] == h:
            out.append(dict(e, h=0))
    return out[::-1]

def seen_whole(ep):
    """the episode, with everything looked up after its last call"""
    keys = {x for e in ep["events"] for x in numbers(e["a"])}
    last = dict(ep["events"][-1], look=[[k, k] for k in sorted(keys)], full=True)
    return dict(ep, events=ep["events"][:-1] + [last])

def numbers(v):
    if isinstance(v, list):
        return [x for y in v for x in numbers(y)]
    return [v] if isinstance(v, int) and not isinstance(v, bool) and 0 < v <= 2000 else []

def attribute(run, exe, ep, v, n):
    """Is the rejected last call of the episode this property's?"""
    line, kind, before, afters, more = v
    prop, map_ = run.prop, ep["map"]
    if not ep["events"]:
        # a new map
        return prop == "X09" and kind == "capacity"
    op = ep["events"][-1]["op"]
    probe = lambda events, cfg=ep["cfg"]: {"map": map_, "cfg": cfg, "events": events}
    fine = lambda eps, tag: all(x is None for x in scripted(run, exe, eps, f"control-{n}-{tag}"))
    again = lambda kind=None: scripted(run, exe, [seen_whole(ep)], f"whole-{n}", kind)[0]
    if prop in ("C01", "P01", "G01"):
        if kind == "contents":
            # a listing can be coherent in itself and still not what the lookups say
            w = again("illegal")
            return w is not None and w[0] == len(ep["events"])
        return kind in ("illegal", "observer-panic")
    if prop == "X03":
        if kind in ("iterator", "iterator-panic"):
            return True
        if more != ["listing"]:
            return False
        # sizes and lookups say that the map is as it should be: then what it lists must be too
        w = again()
        return w is not None and w[0] == len(ep["events"]) and w[1][4] == ["listing"]
    if prop == "X09" and kind == "capacity":
        return True
    if prop == "X07":
        return kind in ("panic", "observer-panic", "eq-panic", "iterator-panic")
    if prop == "X04":
        return kind == "live"
    if prop == "X02":
        return kind in ("eq", "eq-panic")
    if prop == "X01":
        if ep["cfg"]["hasher"] in ("Good", "SameSides", "default"):
            return False
        return fine([probe(ep["events"], dict(ep["cfg"], **h)) for h in SANE], "sane")
    if prop == "X05":
        if kind in ("clone", "bystander") or (op == "clone" and kind in ("result", "panic", "contents", "illegal")):
            return True
        h = ep["events"][-1]["h"]
        if not any(e["op"] in ("fork", "clone") for e in ep["events"]):
            return False
        return fine([probe(lineage(ep, h))], "linear")
    # families of operations
    if kind in ("live", "clone", "bystander", "eq", "known-eq", "eq-panic", "iterator", "iterator-panic"):
        return False
    if family_event(prop, map_, ep["events"][-1]):
        if prop in INSERTING or kind in ("result", "panic"):
            return True
        if len(afters) != 1:
            return True
        return fine([probe(built(map_, afters[0]))], "after")
    if prop in INSERTING:
        return False
    if any(family_event(prop, map_, e) for e in ep["events"]):
        last = dict(ep["events"][-1], h=0)
        return fine([probe(built(map_, before) + [last])], "before")
    return False

def shrink(run, exe, ep, kind, op, n):
    """Drop events while the last one is still rejected in the same way."""
    if any(e["op"] in ("fork", "rebuild") for e in ep["events"]):
        return ep
    parts = 8
    end = time.time() + 60
    for rnd in range(8):
        ev = ep["events"]
        if len(ev) < 3:
            break
        size = max(1, -(-(len(ev) - 1) // parts))
        if len(json.dumps(ev)) * min(64, -(-len(ev) // size)) > 5_000_000 or time.time() > end:
            break
        cands = [dict(ep, events=ev[:i] + ev[i + size:len(ev) - 1] + ev[-1:]) for i in range(0, len(ev) - 1, size)][:64]
        got = scripted(run, exe, cands, f"shrink-{n}-{rnd}", kind)
        best = None
        for c, g in zip(cands, got):
            if g and g[1][1] == kind and c["events"][g[0] - 1]["op"] == op:
                c = dict(c, events=c["events"][:g[0]])
                if best is None or len(c["events"]) < len(best["events"]):
                    best = c
        if best:
            ep = best
        elif size == 1:
            break
        else:
            parts *= 4
    return ep

# Lives of big maps, of the code as it is without optimization, on a small stack: what a call needs
# of it must not grow with the map.
SMALL_STACK = 160  # KiB
def small_stack(run, pool):
    dev = pool.submit(runner.build, "dev").result()
    k = 3 if run.tier == "thorough" else 1
    return [(m, pool.submit(one, run, dev, m, run.seed * 1000 + 500 + i, 1, (2 if k == 1 else 8, 3000 if m == "CycleMap" else 2000),
                            ["--stack", str(SMALL_STACK)])) for m in plan.maps(run.prop) for i in range(k)]

def stage(run, exe, pool):
    exe = exe.result()
    jobs = small_stack(run, pool) if run.prop == "X07" else []
    for m, k, n in files(run.prop, run.tier):
        for i in range(k):
            jobs.append((m, pool.submit(one, run, exe, m, run.seed * 1000 + i, n, big(run.prop, m, run.tier, i))))
    seen = set()
    rejected = []
    others = events = 0
    for m, j in jobs:
        got = j.result()
        if isinstance(got, Crash):
            if run.prop == "X07" or family_op(run.prop, m, got.op) or (run.prop == "X04" and "remove" in got.op):
                got.episode["failure"] = got.what
                run.violate(got.what, got.episode)
            else:
                run.notes.append(f"a recording was cut short: {got.what}")
            continue
        verdicts, count, lines, stats = got
        events += count
        run.cov["traces_validated_against_impl"] += stats["episodes"]
        if "sample" in stats and len(run.cov["samples"]) < 8:
            run.cov["samples"].append(stats["sample"])
        for op, c in stats["ops"].items():
            run.cov.setdefault("trace_calls", {}).setdefault(m, {}).setdefault(op, 0)
            run.cov["trace_calls"][m][op] += c
        run.cov["largest_trace_map"] = max(run.cov.get("largest_trace_map", 0), stats["largest"])
        for v in verdicts:
            kind = v[1]
            if kind == "outside":
                run.cov["trace_calls_outside_the_specification"] = run.cov.get("trace_calls_outside_the_specification", 0) + 1
                continue
            if kind == "known-eq":
                if "partial-eq" in run.findings:
                    run.known["partial-eq"] = run.known.get("partial-eq", 0) + 1
                    continue
                if run.prop != "X02":
                    continue
                v[1] = "eq"
            rejected.append((m, v, lines))
    # small maps first: they are looked into faster
    rejected.sort(key=lambda x: len(json.dumps(x[1][2])))
    for m, v, lines in rejected:
        kind = v[1]
        ep = episode_of(lines, v[0])
        op = ep["events"][-1]["op"] if ep["events"] else "new"
        if (m, kind, op) in seen or len(seen) > 12 or run.violations:
            others += 1
            continue
        seen.add((m, kind, op))
        n = len(seen)
        try:
            if not attribute(run, exe, ep, v, n):
                others += 1
                continue
            small = shrink(run, exe, ep, kind, op, n)
        except Crash as c:
            run.notes.append(f"{c.what} while a rejected trace was looked into")
            others += 1
            continue
        run.violate(f"TLC rejects a recorded history ({kind}): {(readable(small) or [f'a new map, {ep["cfg"]}'])[-1]}",
                    {"kind": "trace", "verdict": kind, "map": m, "episode": small, "readable": readable(small),
                     "before": v[2], "allowed_after": v[3], "more": v[4]})
    run.cov["trace_events"] = run.cov.get("trace_events", 0) + events
    if others:
        run.cov["rejected_traces_of_other_properties"] = others

def one(run, exe, m, seed, n, big, more=[]):
    name = f"trace-{m}-{seed}"
    path = f"{run.work}/{name}.ndjson"
    try:
        recorder(run, exe, ["--map", m, "--seed", str(seed), "--events", str(n),
                            "--big", str(big[0]), "--size", str(big[1])] + more, path)
    except Crash as c:
        if more:
            c.episode["profile"], c.episode["more"] = "dev", more
        return c
    verdicts, count = validate(run, name, m, path)
    stats = {"episodes": 0, "ops": {}, "largest": 0}
    lines = []
    for l in open(path):
        v = json.loads(l)
        lines.append(v)
        if v["op"] == "new":
            stats["episodes"] += 1
        else:
            stats["ops"][v["op"]] = stats["ops"].get(v["op"], 0) + 1
            stats["largest"] = max(stats["largest"], len(v.get("c", [])))
    if seed % 1000 == 0:
        ep = episode_of(lines, len(lines))
        stats["sample"] = {"map": m, "hasher": ep["cfg"], "recorded": readable(ep)[:8]}
    if not verdicts:
        lines = None
    os.unlink(path)
    return verdicts, count, lines, stats
