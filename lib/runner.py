import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import plan

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = "/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8

class ToolError(Exception):
    pass

# ------------------------------------------------------------------ building

def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (REPO + "/src", VERIF + "/harness/src"):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files += [REPO + "/Cargo.toml", VERIF + "/harness/Cargo.toml", VERIF + "/harness/Cargo.lock"]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]

def build(profile="release"):
    """Build the harness against /repo's working tree; returns the binary.  One target directory
    per content of the sources, so that no timestamp can make a stale build look fresh."""
    base = VERIF + "/harness/target"
    os.makedirs(base, exist_ok=True)
    with open(base + "/.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash()
        target = f"{base}/{h}"
        old = [d for d in os.listdir(base) if d != h and os.path.isdir(f"{base}/{d}")]
        for d in sorted(old, key=lambda d: os.path.getmtime(f"{base}/{d}"))[:-3]:
            shutil.rmtree(f"{base}/{d}", ignore_errors=True)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
                   CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
        env.pop("RUSTFLAGS", None)
        p = subprocess.run(["cargo", "build", "--profile", profile, "--offline", "--locked"], cwd=VERIF + "/harness",
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exe = f"{target}/{'debug' if profile == 'dev' else profile}/harness"
        if p.returncode != 0 or not os.path.exists(exe):
            raise ToolError("the harness does not build:\n" + p.stdout[-3000:])
        return exe

# ------------------------------------------------------------------ TLC

def tlc(work, name, module, cfg, workers=1, heap="3g", env=None, timeout=800, extra=()):
    """Run TLC; returns (seconds, path of its output)."""
    out = f"{work}/{name}.out"
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, workers)}", f"-Xmx{heap}", "-Xss16m",
           f"-DTLA-Library={VERIF}/spec:{VERIF}/spec/mc:{VERIF}/spec/trace",
           "-cp", f"{JAR}:{COMMUNITY}", "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", f"{work}/{name}.md", "-config", cfg, *extra, module]
    t = time.time()
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=work,
                               env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC did not finish {name} in {timeout} s")
    shutil.rmtree(f"{work}/{name}.md", ignore_errors=True)
    return p.returncode, time.time() - t, out

STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")

def model(work, name, module, **kw):
    """Model check a bounded configuration that must hold; returns its statistics."""
    cache = os.environ.get("VERIF_CACHE")
    key = None
    if cache:
        h = hashlib.sha256()
        for d in (VERIF + "/spec", VERIF + "/spec/mc"):
            for f in sorted(f for f in os.listdir(d) if os.path.isfile(f"{d}/{f}")):
                h.update(f.encode() + open(os.path.join(d, f), "rb").read())
        key = f"{cache}/{name}-{h.hexdigest()[:16]}"
        if os.path.exists(key):
            os.symlink(key, f"{work}/{name}.out")
            return json.load(open(key + ".json"))
    rc, secs, out = tlc(work, name, f"{VERIF}/spec/mc/{module}.tla", f"{VERIF}/spec/mc/{name}.cfg", **kw)
    text = tail(out, 4000)
    if rc != 0 or "No error has been found" not in text:
        keep = f"{VERIF}/evidence/tlc-{name}.log"
        shutil.copy(out, keep)
        raise ToolError(f"TLC rejects the specification {name} (log: {keep})")
    m = STATS.search(text)
    st = {"config": name, "generated": int(m.group(1)), "distinct": int(m.group(2)), "seconds": round(secs, 1)}
    if key:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(out, key)
        json.dump(st, open(key + ".json", "w"))
    return st

def tail(path, n):
    with open(path, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read().decode(errors="replace")

# ------------------------------------------------------------------ known findings

def known_findings(prop):
    out = {}
    for line in open(VERIF + "/known_findings.txt"):
        m = re.match(r"known: id=(\S+) property=(\S+) (.*)", line)
        if m and m.group(2) == prop:
            out[m.group(1)] = m.group(3).strip()
    return out

# ------------------------------------------------------------------ harness

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def harness(exe, args, timeout):
    """Run the harness; returns (returncode, output); a negative code is a signal, None a timeout."""
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, preexec_fn=limits)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, str(e.stdout or "")[-2000:]

class Run:
    """What one check has done so far."""
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.t0 = time.time()
        self.models = []
        self.violations = []   # (message, replay)
        self.known = {}        # id -> count
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = []
        self.findings = known_findings(prop)
    @property
    def thorough(self):
        return self.tier == "thorough"
    def violate(self, message, replay):
        self.violations.append((message, replay))
    def add_model(self, st):
        self.models.append(st)
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += max(0, st["generated"] - 1)

def journal_tail(path):
    """The episode a crashed run was in."""
    ep = None
    try:
        for line in open(path, errors="replace"):
            try:
                v = json.loads(line)
            except ValueError:
                continue
            if "begin" in v:
                ep = {"kind": "history", "map": v["begin"], "cfg": v["cfg"], "table": v["table"], "calls": []}
            elif ep is not None:
                ep["calls"].append(v)
    except OSError:
        pass
    return ep

INSERTS = {"insert", "insert_left", "insert_right", "insert_remove", "extend", "extend_opt", "collect", "collect_opt"}

def in_family(prop, op):
    """for crashes only: the same division as in harness/src/props.rs"""
    retain = op.startswith("retain") or op in ("drain", "drain_filter", "clear")
    panics = op.endswith("_panic") or op == "drain_filter_forget"
    return {
        "C02": op in INSERTS, "P02": op in INSERTS, "G02": op in INSERTS,
        "C03": op.startswith("remove"), "P04": op.startswith("remove"), "G04": op.startswith("remove"),
        "C04": op.startswith("swap_"), "P05": op.startswith("swap_"),
        "G03": op.startswith("swap_") or op == "pair",
        "P03": op in ("pair", "unpair", "pair_forced", "pair_forced_remove"),
        "C05": retain and not panics, "P06": retain and not panics, "G05": retain and not panics,
        "X05": op == "clone", "X06": op.startswith("deserialize") or op == "round_trip", "X08": panics,
        "X09": op.startswith(("reserve", "try_reserve", "shrink")),
        "X02": op in ("(compare)",), "X10": op == "(OptionalPair)", "X03": op.startswith("(iter"),
    }.get(prop, False)

def tables_stage(run, exe, pool):
    """Binding A: every transition of the bounded specification, on the real maps."""
    jobs = []
    heap = "6g" if run.thorough else "2g"
    # one worker each: TLC's printing of shared values is not safe with several; longest first
    for name, m in sorted(plan.tables(run.prop, run.tier), key=lambda t: (t[1] != "PartialCycleMap", "Big" not in t[0])):
        jobs.append(pool.submit(model, run.work, name, m + "MC", heap=heap))
    for _, name in plan.equalities(run.prop):
        jobs.append(pool.submit(model, run.work, name, name.replace("Tagged", "")))
    if run.prop == "X10":
        jobs.append(pool.submit(model, run.work, "OptionalPair", "OptionalPairMC"))
    if run.prop == "X03":
        jobs.append(pool.submit(model, run.work, "IteratorBig" if run.thorough else "Iterator", "IteratorMC"))
        jobs.append(pool.submit(model, run.work, "IteratorOrderBig" if run.thorough else "IteratorOrder", "IteratorOrderMC"))
    if run.prop == "X09":
        jobs.append(pool.submit(model, run.work, "HashTableBig" if run.thorough else "HashTable", "HashTableMC"))
    for name, module in plan.designs(run.prop, run.tier):
        jobs.append(pool.submit(model, run.work, name, module, heap=heap, workers=3 if run.thorough else 1))
    hashes = bool(plan.tables(run.prop, run.tier)) and run.prop != "X06"
    if hashes:
        jobs.append(pool.submit(model, run.work, "HashFns", "HashFnsMC"))
    if run.thorough:
        import controls
        tests = [pool.submit(j, run.work) for j in controls.jobs(run.prop)]
    for j in jobs:
        run.add_model(j.result())
    if run.thorough:
        run.cov["rejected_controls"] = [j.result() for j in tests]
    exe = exe.result()
    args = ["run", "--prop", run.prop, "--seed", str(run.seed), "--tier", run.tier, "--out", run.work + "/result.json"]
    secs = 240 if run.thorough else 20
    args += ["--time", str(secs), "--hang", "30"]
    for name, m in plan.tables(run.prop, run.tier):
        args += ["--table", f"{name}:{m}:{run.work}/{name}.out"]
    for name, e in plan.equalities(run.prop):
        args += ["--eq", f"{name}:{run.work}/{e}.out"]
    if run.prop == "X10":
        args += ["--opt", run.work + "/OptionalPair.out"]
    if hashes:
        args += ["--hashes", run.work + "/HashFns.out"]
    for k in run.findings:
        args += ["--known", k]
    if run.prop == "X10" or plan.tables(run.prop, run.tier):
        rc, out = harness(exe, args + ["--threads", str(CORES)], secs + 150)
        if rc is None:
            raise ToolError("the harness did not finish")
        if rc == 101 or rc == 2:
            raise ToolError("the harness failed: " + out[-2000:])
        if rc != 0:
            crash(run, exe, args, secs, rc)
            return
        res = json.load(open(run.work + "/result.json"))
        take(run, res)

def take(run, res):
    for v in res["violations"]:
        run.violate(v["message"], v["replay"])
    for k, n in res["known"].items():
        run.known[k] = run.known.get(k, 0) + n
    run.cov["traces_validated_against_impl"] += res["histories"]
    run.cov["calls_checked"] = run.cov.get("calls_checked", 0) + res["steps"]
    run.cov["samples"] += res["samples"]
    run.cov.setdefault("counts", {}).update(res["counts"])
    if res["banned"]:
        run.notes.append("operations left out because they fail for another property: " + ", ".join(res["banned"]))

def crash(run, exe, args, secs, rc):
    """The harness died. Find the history in which it does."""
    j = run.work + "/journal"
    rc2, out = harness(exe, args + ["--threads", "1", "--journal", j, "--time", str(secs * 3)], secs * 3 + 150)
    ep = journal_tail(j)
    if rc2 == 0 or ep is None:
        if rc2 == 0:
            take(run, json.load(open(run.work + "/result.json")))
            if run.violations:
                return
        raise ToolError(f"the harness was ended by signal {rc}, and not again")
    op = ep["calls"][-1]["op"] if ep["calls"] else "(new)"
    msg = f"the process is ended (status {rc2}) by {op}"
    ep["failure"] = msg
    if run.prop == "X07" or in_family(run.prop, op) or (run.prop == "X04" and "remove" in op):
        run.violate(msg, ep)
    else:
        run.notes.append(f"exploration cut short: {msg}")

# ------------------------------------------------------------------ the whole check

def check(prop, tier, seed, work):
    if prop not in plan.ALL:
        raise ToolError("unknown property")
    run = Run(prop, tier, seed, work)
    ev = f"{VERIF}/evidence"
    os.makedirs(ev, exist_ok=True)
    with ThreadPoolExecutor(8) as pool:
        exe = pool.submit(build)
        import stages
        for stage in stages.of(run):
            stage(run, exe, pool)
            if run.violations:
                break
    return report(run)

def report(run):
    prop = run.prop
    for k, what in run.findings.items():
        if run.known.get(k):
            print(f"KNOWN-FINDING: property={prop} {what} [{run.known[k]} times in this run]")
    c = run.cov
    c["samples"] = c["samples"][:8]
    c["models"] = run.models
    if run.notes:
        c["notes"] = run.notes
    e = {
        "property": prop, "tier": run.tier, "seed": run.seed, "level": "model_checking", "coverage": c,
        "assumptions": ["TLC, rustc and the harness' projection of the public API are correct",
                        "histories through the known findings are not followed"],
        "wall_s": round(time.time() - run.t0, 2), "violations": len(run.violations),
    }
    json.dump(e, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    if run.violations:
        msg, replay = run.violations[0]
        path = f"{VERIF}/evidence/replay-{prop}.json"
        json.dump({"property": prop, "message": msg, "replay": replay}, open(path, "w"), indent=1)
        print(f"  {msg[:1500]}")
        for m, _ in run.violations[1:3]:
            print(f"  also: {m[:300]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"OK property={prop} tier={run.tier} states={c['states']} transitions={c['transitions']} "
          f"traces={c['traces_validated_against_impl']} wall={e['wall_s']}s")
    return 0
