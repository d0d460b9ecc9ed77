#!/usr/bin/env python3
"""Development only: run checks against the planted bugs of /verif/seeded.
matrix.py [--all] [--seeds=1,2] [ID ...]   runs its property's check (--all: every check) on a scratch copy
of /repo with the patch, mounted over /repo in a namespace of its own, and prints which raised an alarm."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
every = "--all" in sys.argv
seeds = next((a[8:].split(",") for a in sys.argv if a.startswith("--seeds=")), ["1"])
props_arg = next((a[8:].split(",") for a in sys.argv if a.startswith("--props=")), None)
ids = args or sorted(os.listdir(V + "/seeded"))
MOUNT = 'mount --bind "$1/repo" /repo && mount --bind "$1/ev" /verif/evidence && mount --bind "$1/target" /verif/harness/target && exec python3 /verif/check.py "$2"'
for i in ids:
    d = f"{V}/seeded/{i}" if os.path.isdir(f"{V}/seeded/{i}") else i
    own = json.load(open(d + "/meta.json"))["property"] if os.path.exists(d + "/meta.json") else "-"
    props = plan.ALL if every else props_arg or [own]
    w = tempfile.mkdtemp(prefix="matrix-")
    try:
        for x in ("ev", "target"):
            os.mkdir(f"{w}/{x}")
        shutil.copytree("/repo", w + "/repo", ignore=shutil.ignore_patterns("target"))
        if os.path.exists(d + "/patch.diff"):
            subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w + "/repo", check=True)
        for seed in seeds:
            out = []
            env = dict(os.environ, VERIF_CACHE="/tmp/w/cache", VERIF_SEED=seed)
            for p in props:
                t = time.time()
                r = subprocess.run(["unshare", "-m", "bash", "-c", MOUNT, "-", w, p], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    out.append(p)
                    print(f"    {p}: " + r.stdout.strip().splitlines()[0][:220] + f"  [{time.time()-t:.0f} s]")
                elif r.returncode != 0:
                    out.append(p + "?")
                    print("    ?", r.stdout[-600:])
            print(f"{os.path.basename(i)}: {own} {'CAUGHT' if own in out else 'missed'}" + (f" alarms: {' '.join(out)}" if len(props) > 1 else "")
                  + (f" (seed {seed})" if len(seeds) > 1 else ""), flush=True)
    finally:
        shutil.rmtree(w)
