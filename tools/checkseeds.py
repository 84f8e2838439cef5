#!/usr/bin/env python3
"""Validates planted changes in scratch copies of /repo: each applies, builds, passes
the stable tests, and its demo passes without it and fails with it."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
SEED = "/verif/seeded"
base = json.load(open("/opt/vp/BASELINE.json"))
ids = sys.argv[1:] or sorted(os.listdir(SEED))

def sh(cmd, cwd, env=None, t=400):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"

def one(i):
    d = os.path.join(SEED, i)
    with tempfile.TemporaryDirectory(prefix="seedws-") as w:
        r = w + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        shutil.copy("/repo/Cargo.lock", r)
        env = dict(os.environ, CARGO_TARGET_DIR=w + "/t", CARGO_NET_OFFLINE="true")
        c0, o0 = sh(["bash", d + "/demo.sh"], r)
        if c0: return i, "DEMO FAILS ON CLEAN: " + o0[-600:]
        c, o = sh(["git", "apply", d + "/patch.diff"], r)
        if c: return i, "DOES NOT APPLY " + o
        c, o = sh(["cargo", "test", "--offline", "--workspace", "--no-fail-fast"], r, env)
        if c: return i, "TESTS: " + "\n".join(l for l in o.splitlines() if "error" in l or "FAILED" in l or "failed" in l)[:1200]
        c1, o1 = sh(["bash", d + "/demo.sh"], r)
        if c1 == 0: return i, "DEMO PASSES WITH PATCH"
        if c1 == 2: return i, "DEMO BUILD: " + o1[-500:]
        warn = [l for l in o.splitlines() if l.startswith("warning") and "generated" not in l]
        return i, "ok (%s)%s" % (c1, " WARN " + str(warn[:3]) if warn else "")

with ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(one, ids):
        print("%-28s %s" % (i, m), flush=True)
