"""`check.py PROPERTY --replay FILE`: does what a check reported still happen?"""
import json
import plan, runner, traces
from runner import ToolError

def replay(prop, tier, seed, work, path):
    run = runner.Run(prop, tier, seed, work)
    v = json.load(open(path))
    v = v.get("replay", v)
    exe = runner.build(v.get("profile", "release"))
    for line in v.get("readable", [])[-40:]:
        print("  ", line)
    if v["kind"] == "trace":
        try:
            got = traces.scripted(run, exe, [v["episode"]], "replay")[0]
        except traces.Crash as c:
            got = c.what
        print("TLC rejects the history again:" if got else "TLC accepts the history.", json.dumps(got[1]) if isinstance(got, tuple) else got or "")
        return 1 if got else 0
    name = v.get("table") or v.get("map", "")
    args = ["replay", "--prop", prop, "--seed", str(seed), "--tier", tier]
    if v["kind"].startswith("optional"):
        runner.model(work, "OptionalPair", "OptionalPairMC")
        args += ["--opt", work + "/OptionalPair.out"]
    else:
        m = v["map"]
        runner.model(work, name, m + "MC", heap="6g")
        args += ["--table", f"{name}:{m}:{work}/{name}.out"]
        eqs = dict(plan.equalities("X02"))
        if name in eqs:
            e = eqs[name]
            runner.model(work, e, e.replace("Tagged", ""))
            args += ["--eq", f"{name}:{work}/{e}.out"]
    rc, out = runner.harness(exe, args + v.get("more", []) + [path], 120)
    print(out.strip())
    if rc == 0:
        print("it does not happen any more")
        return 0
    if rc == 1:
        print("it happens again")
        return 1
    print("the process does not end normally: it happens again" if rc is None or rc < 0 else f"status {rc}")
    return 1 if rc is None or rc < 0 else 2
