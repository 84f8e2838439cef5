#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table below: each entry is a change to
/repo's sources, given as (file, old text, new text) replacements, and a small
program that fails with the change.  Usage: mkseeds.py [id ...]"""
import json, os, subprocess, sys, shutil, tempfile

REPO, OUT = "/repo", "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# cwd: the repository.  Builds demo.rs against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
exec python3 - "$here/demo.rs" "$PWD" <<'PY'
import os, shutil, subprocess, sys, tempfile
demo, repo = sys.argv[1:3]
with tempfile.TemporaryDirectory(prefix="diffy-demo-") as d:
    os.mkdir(d + "/src")
    shutil.copy(demo, d + "/src/main.rs")
    open(d + "/Cargo.toml", "w").write(
        '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n'
        '[dependencies]\\ndiffy = { path = "%s" }\\n' % repo)
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true")
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env)
    if b.returncode:
        print("demo does not build"); sys.exit(2)
    try:
        r = subprocess.run([d + "/target/debug/demo"], cwd=d, timeout=60)
        code = 1 if r.returncode else 0
    except subprocess.TimeoutExpired:
        print("demo hangs"); code = 1
sys.exit(code)
PY
'''
LINES = '''
#[allow(dead_code)]
fn lines(r: std::ops::Range<usize>) -> Vec<String> { r.map(|i| format!("line {}\\n", i)).collect() }
'''
SEEDS = {}
def seed(id, prop, what, needs, edits, demo):
    SEEDS[id] = dict(prop=prop, what=what, needs=needs, edits=edits, demo=demo)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds.py")).read())

def main():
    for i in (sys.argv[1:] or SEEDS):
        s = SEEDS[i]
        d = os.path.join(OUT, i)
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory(prefix="mkseed-") as w:
            subprocess.check_call(["git", "clone", "-q", REPO, w + "/r"])
            for f, old, new in s["edits"]:
                p = w + "/r/" + f
                t = open(p).read()
                n = t.count(old)
                assert n >= 1, (i, f, "not found", old)
                assert n == 1, (i, f, "found %d times" % n, old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.check_output(["git", "diff"], cwd=w + "/r", text=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.rs", "w").write("// " + s["what"].split("\n")[0] + "\n" + s["demo"].strip() + "\n" + LINES)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]},
                  open(d + "/meta.json", "w"), indent=1)
        print("wrote", i)

main()
