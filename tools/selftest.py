#!/usr/bin/env python3
"""Does the specification notice a wrong answer?  Recorded sessions (which TLC accepts) are
damaged in one place of one result, and TLC judges them again, for every property.
  selftest.py [sessions per property] [seed]
Prints, per kind of call and place of the result, how many damaged sessions there were, how
many were rejected by some property's clauses and by which; and examples nobody rejected.
Some damage is legal (another answer the contract allows), so less than all is expected."""
import json, os, random, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

N = int(sys.argv[1]) if len(sys.argv) > 1 else 40
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
PROPS = [f"P{i:02}" for i in range(1, 23)]
SKIP = {"msg"}


def leaves(x, path=()):
    """places of a value where it can be damaged"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k not in SKIP:
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def damage(g, x, path=()):
    if x in ("C", "D", "I") and path and path[-1] == 0:
        return g.choice([k for k in "CDI" if k != x])
    if len(path) > 1 and path[-2] == "rn":
        return str(int(x) + 1)
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + g.choice([1, -1]) if x > 0 else x + 1
    if isinstance(x, str):
        return g.choice([x + "x", x[:-1] if x else "y", "z" + x])
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("C", "D", "I"):
            return None
        y = list(x)
        k = g.randrange(3)
        if y and k == 0:
            del y[g.randrange(len(y))]
        elif y and k == 1:
            y.insert(g.randrange(len(y) + 1), g.choice(y))
        elif len(y) > 1 and k == 2:
            i = g.randrange(len(y) - 1)
            y[i], y[i + 1] = y[i + 1], y[i]
        elif y:
            y = []
        else:
            return None
        return y if y != x else None
    return None


def put(x, path, v):
    if not path:
        return v
    y = list(x) if isinstance(x, list) else dict(x)
    y[path[0]] = put(y[path[0]], path[1:], v)
    return y


def get(x, path):
    for k in path:
        x = x[k]
    return x


def made(prop, work):
    g = random.Random(f"{prop}{SEED}")
    d = os.path.join(work, prop)
    os.makedirs(d)
    subprocess.run([check.DRIVE, "run", "--prop", prop, "--tier", "quick", "--seed", str(SEED), "--shard", "3", "--shards", "8",
                    "--out", d, "--budget", "3000000"], check=True, stdout=subprocess.DEVNULL)
    ss = [json.loads(l)["s"] for l in open(os.path.join(d, "trace.3.ndjson")) if len(l) < 2500]
    g.shuffle(ss)
    out = []
    for s in ss[:N]:
        for _ in range(3):
            i = g.choice([i for i, e in enumerate(s) if "r" in e] or [None])
            if i is None:
                break
            path = g.choice(list(leaves(s[i]["r"])))
            v = damage(g, get(s[i]["r"], path), path)
            if v is None or path == ("st",) or (path and path[-1] in ("rn", "ls") and "hunks" in path and path[-1] == "rn"):
                continue
            t = list(s)
            t[i] = dict(s[i], r=put(s[i]["r"], path, v))
            name = s[i]["op"] + "." + ".".join("#" if isinstance(k, int) else k for k in path)
            out.append((name, prop, i, path, v, t))
    return out


def main():
    check.build()
    work = tempfile.mkdtemp(prefix="selftest-")
    try:
        with ThreadPoolExecutor(8) as ex:
            bad = [x for l in ex.map(lambda p: made(p, work), PROPS[:]) for x in l]
            tr = os.path.join(work, "bad.ndjson")
            parts = []
            for k in range(0, len(bad), 400):
                t = f"{tr}.{k}"
                with open(t, "w") as f:
                    for b in bad[k:k + 400]:
                        f.write(json.dumps({"s": b[5]}) + "\n")
                parts.append((k, t))
            by = [set() for _ in bad]

            def one(job):
                p, (k, t) = job
                try:
                    return p, k, check.judge(p, t, work, 1800)[3], None
                except check.Trouble as e:
                    return p, k, [], str(e)
            for p, k, stuck, err in ex.map(one, [(p, x) for p in PROPS for x in parts]):
                if err:
                    print("trouble", p, k, err[:1500])
                for s, step in stuck:
                    by[k + s - 1].add(p)
        stat = {}
        for b, who in zip(bad, by):
            a = stat.setdefault(b[0], [0, 0, {}])
            a[0] += 1
            a[1] += bool(who)
            for w in who:
                a[2][w] = a[2].get(w, 0) + 1
        for k, (n, m, who) in sorted(stat.items()):
            print(f"{k:40} {m}/{n} ", " ".join(f"{p}:{c}" for p, c in sorted(who.items())))
        print("total", sum(a[1] for a in stat.values()), "of", len(bad))
        with open("/tmp/selftest-missed.ndjson", "w") as f:
            for b, who in zip(bad, by):
                if not who:
                    f.write(json.dumps({"where": b[0], "from": b[1], "step": b[2], "path": b[3], "now": b[4], "s": b[5]}) + "\n")
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
