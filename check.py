#!/usr/bin/env python3
"""Decide one property of /repo:  check.py P01 [quick|thorough]
A hasty look, without models:  check.py P01 try
Re-judge a recorded program:      check.py replay FILE
Build only:                       check.py build

Exit 0: held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DIFFY_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
DRIVE = os.path.join(TARGET, "release", "drive")
EVID = os.path.join(HERE, "evidence")
OUT = os.path.join(HERE, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
LEVEL = "model_checking"
os.environ["DIFFY_SRC"] = os.path.join(REPO, "src")  # numbers and strings worth trying
START = time.time()

# TLC's share of the work, in the driver's cost units (about a microsecond each), per shard
BUDGET = {"try": 400_000, "quick": 12_000_000, "thorough": 150_000_000}
LIMIT = {"try": 840, "quick": 840, "thorough": 6 * 3600}  # seconds for the whole check

# behaviours of the design, replayed into the code: per shard and simulated configuration
BEHAVIOURS = {"quick": 60, "thorough": 4000}
SIMULATED = {"Patch": "SimPatch.cfg", "Merge": "SimMerge.cfg", "Doc": "SimDoc.cfg"}
HISTORIES = {p: ["Patch"] for p in ("P01", "P02", "P03", "P04", "P05", "P10", "P11", "P21")}
HISTORIES |= {p: ["Doc"] for p in ("P06", "P07", "P08", "P09", "P19", "P20", "P22")}
HISTORIES |= {p: ["Merge"] for p in ("P12", "P13", "P14", "P15")}
HISTORIES |= {p: ["Patch", "Merge", "Doc"] for p in ("P16", "P17", "P18")}

# design models: property -> [(cfg, what it establishes)], run in quick and thorough
sys.path.insert(0, HERE)
try:
    from tools.models import MODELS
except ImportError:
    MODELS = {}


class Trouble(Exception):
    """the check itself failed (never a verdict about the code)"""


def left(tier):
    return max(10, LIMIT[tier] - (time.time() - START))


# ------------------------------------------------------------------ building

def digest():
    h = hashlib.sha256()
    for root, keep in ((REPO, ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo")),
                       (HARNESS, ("src", "Cargo.toml", "Cargo.lock"))):
        for k in keep:
            p = os.path.join(root, k)
            files = [p] if os.path.isfile(p) else sorted(
                os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
            for f in files:
                h.update(os.path.relpath(f, root).encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read() + b"\0")
    return h.hexdigest()


def build():
    """the driver, linked with /repo's code as it is now"""
    want = digest()
    mark = os.path.join(TARGET, "built-from")
    if os.path.exists(DRIVE) and os.path.exists(mark) and open(mark).read() == want:
        return
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="", RUSTFLAGS="")
    os.makedirs(TARGET, exist_ok=True)
    if os.path.exists(mark):
        os.remove(mark)
    # cargo judges by time stamps; the contents are what counts
    subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "diffy", "-p", "diffy-harness"],
                   cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Trouble("the harness does not build:\n" + r.stdout[-4000:])
    with open(mark, "w") as f:
        f.write(want)


# ----------------------------------------------------------------------- TLC

def tlc(spec, cfg, work, env=None, args=(), workers=1, timeout=600, heap="2g", attempt=0):
    """run TLC; its output, or Trouble"""
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cmd = ["java", f"-Xmx{heap}", "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={work}", "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *args, spec]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True, encoding="utf-8",
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise Trouble(f"TLC took longer than {timeout:.0f} s on {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def counts(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def judge(prop, trace, work, timeout):
    """which sessions of the file are behaviours of the specification?
    -> (states, transitions, number of sessions, [(session, step it got stuck at)])"""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return 0, 0, 0, []
    rc, out = tlc("Trace.tla", "Trace.cfg", work, env={"TRACE": trace, "PROP": prop}, timeout=timeout)
    if rc != 0 or "Model checking completed. No error has been found." not in out \
            or f'"SESSIONS {n}"' not in out:
        raise Trouble(f"TLC could not judge {trace} (exit {rc}):\n{tail(out)}")
    stuck = [(int(a), int(b)) for a, b in re.findall(r'"STUCK (\d+) (\d+)"', out)]
    gen, distinct = counts(out)
    return distinct, gen - n, n, stuck


def tail(out):
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-3000:]


# -------------------------------------------------------------------- driver

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def broken(st, note):
    return {"op": "call", "what": note, "r": {"st": st}}


def shard(prop, tier, seed, i, work, timeout):
    """run one shard of the driver; a program that kills it or never returns is written to
    the shard's trace as a session of its own"""
    args = ["--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(i), "--shards", str(SHARDS)]
    try:
        r = subprocess.run([DRIVE, "run", *args, "--out", work, "--budget", str(BUDGET[tier])],
                           preexec_fn=limits, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Trouble(f"driver shard {i} took longer than {timeout:.0f} s")
    if r.returncode == 0:
        return None
    hang = r.returncode == 97
    if not hang and not (r.returncode < 0 and -r.returncode in (4, 6, 7, 8, 11)):
        raise Trouble(f"driver shard {i} exited with {r.returncode}: {r.stdout[-2000:]}")
    with open(os.path.join(work, f"cur.{i}"), "rb") as f:
        index = int.from_bytes(f.read(8), "little")
    if index >= 1 << 63:
        raise Trouble(f"driver shard {i} died outside the code under test ({r.returncode})")
    s = subprocess.run([DRIVE, "show", *args, "--index", str(index)], stdout=subprocess.PIPE, timeout=600)
    progs = [l for l in s.stdout.decode().splitlines() if l]
    # again, alone: only what happens again counts
    found = []
    for p in progs:
        st = dies(prop, p, work)
        if st:
            found.append((p, st))
            break
    if not found:
        raise Trouble(f"driver shard {i} died ({r.returncode}) on program {index}, which passes alone")
    p, st = found[0]
    with open(os.path.join(work, f"trace.{i}.ndjson"), "w") as f:
        f.write(json.dumps({"s": [broken(st, "the program did not return normally")]}) + "\n")
    with open(os.path.join(work, f"progs.{i}.ndjson"), "w") as f:
        f.write(p + "\n")
    with open(os.path.join(work, f"stats.{i}.json"), "w") as f:
        json.dump({"programs": index, "calls": 0, "steps": 0, "suspects": 1, "sessions": 1, "classes": {}}, f)
    return st


def dies(prop, p, work):
    """None if the program returns normally, else what it does instead"""
    try:
        r = subprocess.run([DRIVE, "replay", "--prop", prop], input=p.encode(), preexec_fn=limits,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=100)
    except subprocess.TimeoutExpired:
        return "hang"
    return "abort" if r.returncode < 0 else None


def replay(prop, prog, work, name="one"):
    """run one program and have TLC judge it -> (stuck step or None, session)"""
    st = dies(prop, prog, work)
    if st:
        line = json.dumps({"s": [broken(st, "the program did not return normally")]})
    else:
        r = subprocess.run([DRIVE, "replay", "--prop", prop], input=prog.encode(), preexec_fn=limits,
                           stdout=subprocess.PIPE, timeout=200)
        if r.returncode != 0:
            raise Trouble("replay failed")
        line = r.stdout.decode().splitlines()[0]
    t = os.path.join(work, name + ".ndjson")
    with open(t, "w") as f:
        f.write(line + "\n")
    _, _, _, stuck = judge(prop, t, work, 600)
    return (stuck[0][1] if stuck else None), json.loads(line)["s"]


# ------------------------------------------------------------ known findings

def known(prop):
    """programs listed as genuine, unrepaired defects: `finding: property=P01 program=<json>`"""
    out = {}
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) program=(\{.*\}) what=(.*)", l.strip())
            if m and m.group(1) == prop:
                out[key(m.group(2))] = m.group(3)
    return out


def key(p):
    return json.dumps(json.loads(p)["ops"], sort_keys=True)


# ---------------------------------------------------- behaviours of the design

def behave(prop, tier, seed, i, work, timeout):
    """behaviours simulated from the design, run against the real code; the recorded sessions
    join the shard's trace.  -> (behaviours, states of the simulation)"""
    progs, states = [], 0
    if tier == "try":
        return 0, 0
    n = BEHAVIOURS[tier] // len(HISTORIES[prop])
    for which in HISTORIES[prop]:
        rc, out = tlc("Design.tla", SIMULATED[which], work, env={"SHARD": str(i)}, timeout=timeout,
                      args=("-simulate", f"num={n}", "-depth", "200", "-seed", str(seed * 1000 + i)))
        got = [json.loads(json.loads(l)[8:]) for l in out.splitlines() if l.startswith('"PROGRAM ')]
        m = re.search(r"^The number of states generated: (\d+)", out, re.M)
        if rc != 0 or "Error:" in out or len(got) < n or not m:
            raise Trouble(f"the design does not simulate ({which}, exit {rc}, {len(got)} behaviours):\n{tail(out)}")
        progs += got
        states += int(m.group(1))
    progs = [json.dumps(p, ensure_ascii=False) for p in progs]
    try:
        r = subprocess.run([DRIVE, "replay", "--prop", prop], input="\n".join(progs).encode(), preexec_fn=limits,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=min(timeout, 120 + len(progs)))
        lines = r.stdout.decode().splitlines() if r.returncode == 0 else None
    except subprocess.TimeoutExpired:
        lines = None
    if lines is None:  # one of them kills the process or does not return
        for p in progs:
            st = dies(prop, p, work)
            if st:
                progs = [p]
                lines = [json.dumps({"s": [broken(st, "the program did not return normally")]})]
                break
        else:
            raise Trouble(f"replaying the behaviours of shard {i} failed, but each returns alone")
    if len(lines) != len(progs):
        raise Trouble("replay lost programs")
    for name, more in (("trace", lines), ("progs", progs)):
        with open(os.path.join(work, f"{name}.{i}.ndjson"), "a") as f:
            f.write("".join(l + "\n" for l in more))
    return len(progs), states


# ----------------------------------------------------------------- the check

def design(prop, tier, work):
    """the specification itself, model checked in small scopes"""
    res = []
    for m in MODELS.get(prop, []):
        if tier == "try" or m.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        rc, out = tlc(m["spec"], m["cfg"], work, workers=m.get("workers", 2), timeout=min(left(tier), m.get("timeout", 600)),
                      heap=m.get("heap", "4g"), args=m.get("args", ()), env=dict(m.get("env", {}), PROP=prop))
        if rc != 0 or "No error has been found" not in out:
            raise Trouble(f"the model {m['cfg']} does not check (exit {rc}):\n{tail(out)}")
        gen, distinct = counts(out)
        res.append({"model": m["cfg"], "establishes": m["what"], "states": distinct, "transitions": gen})
    return res


def agree(work):
    """how often the algorithm models compute what the code computed, on one shard's sessions;
    informative only: code with another algorithm may be as right"""
    trace = os.path.join(work, "trace.0.ndjson")
    try:
        rc, out = tlc("Agree.tla", "Agree.cfg", work, env={"TRACE": trace, "PROP": "NONE"}, timeout=300)
    except Trouble as e:
        return {"not_measured": str(e)}
    found = re.findall(r'"AGREE (\w+) (\d+) (\d+)"', out)
    if rc != 0 or not found:
        return {"not_measured": tail(out)[:300]}
    return {k: {"recomputed": int(a), "same": int(b)} for k, a, b in found if int(a)}


def check(prop, tier, seed):
    build()
    os.makedirs(EVID, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{prop}-")
    try:
        return explore(prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, tier, seed, work):
    with cf.ThreadPoolExecutor(SHARDS) as ex:
        ends = list(ex.map(lambda i: shard(prop, tier, seed, i, work, left(tier)), range(SHARDS)))
        drove = time.time() - START
        lived = list(ex.map(lambda i: behave(prop, tier, seed, i, work, left(tier)), range(SHARDS)))
    stats = [json.load(open(os.path.join(work, f"stats.{i}.json"))) for i in range(SHARDS)]
    with cf.ThreadPoolExecutor(SHARDS + 2) as ex:
        models = ex.submit(design, prop, tier, work)
        same = ex.submit(agree, work) if tier != "try" else ex.submit(dict)
        verdicts = list(ex.map(
            lambda i: judge(prop, os.path.join(work, f"trace.{i}.ndjson"), work, left(tier)), range(SHARDS)))
        models, same = models.result(), same.result()

    bad, samples = [], []
    for i, (_, _, n, stuck) in enumerate(verdicts):
        progs = open(os.path.join(work, f"progs.{i}.ndjson")).read().splitlines()
        traces = open(os.path.join(work, f"trace.{i}.ndjson")).read().splitlines()
        for s, step in stuck:
            bad.append((len(progs[s - 1]), progs[s - 1], json.loads(traces[s - 1])["s"], step))
        if n and len(samples) < 3:
            k = (7 * (i + 1)) % n
            if len(traces[k]) < 3000:
                samples.append({"program": json.loads(progs[k]), "trace": json.loads(traces[k])["s"]})
    bad.sort(key=lambda b: b[0])
    listed = known(prop)
    fresh, said = [], set()
    for b in bad:
        what = listed.get(key(b[1]))
        if what is None:
            fresh.append(b)
        elif what not in said:
            said.add(what)
            print(f"KNOWN-FINDING: property={prop} {what}")

    classes = {}
    for s in stats:
        for k, (n, m) in s["classes"].items():
            a = classes.setdefault(k, [0, 0])
            a[0] += n
            a[1] += m
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "states": sum(v[0] for v in verdicts) + sum(m["states"] for m in models),
            "transitions": sum(v[1] for v in verdicts) + sum(m["transitions"] for m in models),
            "traces_validated_against_impl": sum(v[2] for v in verdicts),
            "samples": samples,
            "design_models": models,
            "algorithm_models_against_recorded_calls": same,
            "design_behaviours_replayed": sum(b[0] for b in lived),
            "design_simulation_states": sum(b[1] for b in lived),
            "programs_executed": sum(s["programs"] for s in stats),
            "calls_executed": sum(s["calls"] for s in stats),
            "suspects_handed_to_tlc": sum(s["suspects"] for s in stats),
            "sessions_per_class": {k: {"executed": v[0], "judged_by_tlc": v[1]} for k, v in sorted(classes.items())},
        },
        "assumptions": [
            "traces_validated_against_impl counts sessions recorded from the real code and followed to their end, or rejected, by TLC",
            "programs_executed were also compared natively with look-alikes of the specification's predicates; every deviation goes to TLC, which alone decides",
        ],
        "wall_s": round(time.time() - START, 2),
        "violations": len(fresh),
    }
    if tier != "try":
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    if not fresh:
        print(f"{prop} {tier}: held; {ev['coverage']['programs_executed']} programs executed ({drove:.1f} s), "
              f"{ev['coverage']['traces_validated_against_impl']} sessions judged by TLC, "
              f"{ev['coverage']['states']} states, {ev['wall_s']} s")
        return 0
    _, prog, sess, step = fresh[0]
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{prop}-{tier}-{seed}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "program": json.loads(prog), "stuck_at_step": step, "session": sess}, f, indent=1)
        f.write("\n")
    print(f"{prop} {tier}: {len(fresh)} recorded sessions are not behaviours of the specification; the smallest:")
    for k, e in enumerate(sess, 1):
        print(("->" if k == step else "  ") + " " + json.dumps(e)[:600])
        if k == step:
            break
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "build":
            build()
            return 0
        if a[0] == "replay":
            build()
            j = json.load(open(a[1]))
            with tempfile.TemporaryDirectory() as work:
                step, sess = replay(j["property"], json.dumps(j["program"]), work)
            for k, e in enumerate(sess, 1):
                print(("->" if k == step else "  ") + " " + json.dumps(e))
            if step:
                print(f"VIOLATION property={j['property']} replay={a[1]}")
                return 1
            return 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    except Trouble as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
