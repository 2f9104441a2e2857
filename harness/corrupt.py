"""How much of what is recorded does the specification constrain?

bin/corrupt ID [--n N] [--seed S]: the scenarios of the check are executed on the code of /repo, one leaf of what was
recorded in each trace is altered (a text, a number, a boolean, an element dropped, doubled or two exchanged), and TLC
validates the altered traces.  Prints, per operation and field, how many alterations were rejected; those accepted are
shown in full with -v.  Not a check: a measure of the binding, quoted in DESIGN.md."""
import argparse
import collections
import copy
import importlib
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw  # noqa: E402
from run import MODULES  # noqa: E402


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, w in v.items():
            yield from leaves(w, path + (k,))
    elif isinstance(v, list):
        if v:
            yield path, "list"
        for i, w in enumerate(v):
            yield from leaves(w, path + (i,))
    else:
        yield path, "leaf"


def get(v, path):
    for k in path:
        v = v[k]
    return v


def change(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1])
    if isinstance(v, str):
        return rng.choice([v + "x", v[:-1] or "y"])
    q = list(v)
    k = rng.randrange(3)
    if k == 0 or len(q) == 1 and k == 2:
        del q[rng.randrange(len(q))]
    elif k == 1:
        q.insert(rng.randrange(len(q)), copy.deepcopy(rng.choice(q)))
    else:
        i, j = rng.sample(range(len(q)), 2)
        if q[i] == q[j]:
            del q[i]
        else:
            q[i], q[j] = q[j], q[i]
    return q


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--n", type=int, default=400)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", default="", help="field path must contain this")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    os.makedirs(fw.WORK, exist_ok=True)
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(MODULES[a.pid])
    rng = random.Random(a.seed * 7919 + sum(map(ord, a.pid)))
    lines = []
    for spec, cfg in mod.MC:
        r = fw.tlc(spec, cfg)
        lines += [json.loads(x[4:]) for x in sorted(x for x in r.lines if isinstance(x, str) and x.startswith("SCN "))]
    scns = list(mod.scenarios(rng, "quick", lines))
    for n, s in enumerate(scns):
        s.setdefault("id", "s%d" % n)
    rng.shuffle(scns)
    traces = [t for t in fw.execute(mod.execute, scns[:a.n], timeout=20) if "ev" in t]
    base, _ = fw.validate(mod.TRACE[0], mod.TRACE[1], traces)
    traces = [t for t in traces if t["id"] not in {m["id"] for m in base}]
    todo, what = [], {}
    for t in traces:
        u = copy.deepcopy(t)
        i = rng.randrange(len(u["ev"]))
        e = u["ev"][i]
        ls = [p for p, k in leaves(e) if p and p[0] != "op" and a.only in "/".join(map(str, p))]
        if not ls:
            continue
        # every field as likely as any other, however many leaves it has
        by = collections.defaultdict(list)
        for p in ls:
            by[tuple(x for x in p if isinstance(x, str))].append(p)
        p = rng.choice(by[rng.choice(sorted(by))])
        old = get(e, p)
        new = change(rng, old)
        if new == old:
            continue
        get(e, p[:-1])[p[-1]] = new
        todo.append(u)
        what[u["id"]] = (e.get("op"), ".".join(str(x) for x in p if isinstance(x, str)), i + 1, p, old, new)
    mism, stats = [], {"distinct": 0, "generated": 0, "traces": 0, "events": 0, "wall": 0.0}
    for i in range(0, len(todo), 60):
        fw._validate_chunk(mod.TRACE[0], mod.TRACE[1], todo[i:i + 60], None, 800, mism, stats, attempts=61)
    caught = {m["id"] for m in mism}
    tot = collections.Counter(w[:2] for w in what.values())
    got = collections.Counter(w[:2] for k, w in what.items() if k in caught)
    print("%s: %d of %d altered traces rejected" % (a.pid, sum(got.values()), sum(tot.values())))
    for k in sorted(tot):
        if got[k] < tot[k]:
            print("  %-10s %-24s %d/%d" % (k[0], k[1], got[k], tot[k]))
    if a.v:
        ev = {t["id"]: t for t in todo}
        for k, w in what.items():
            if k not in caught:
                print("ACCEPTED", k, w[0], w[3], json.dumps(w[4])[:150], "->", json.dumps(w[5])[:150])
                print("     ", json.dumps(ev[k]["ev"][w[2] - 1])[:600])


if __name__ == "__main__":
    main()
