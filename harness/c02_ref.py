"""C02: reference algebra and reference sets."""
import copy
import pickle
from fw import S, O, I, L, B

MC = [("MCRef.tla", "MCRef.cfg")]
TRACE = ("TraceRef.tla", "Trace.cfg")
REQUIRED_OPS = ["read", "same", "text", "set"]
ASSUMPTIONS = ["at most one '-' and one '@' per end; words made of word characters (dots allowed, then word/counter are not asserted)"]


def gen(rng):
    vals = ["1", "2", "3", "10", "a", "pr", "α", "1a", "3_b", "Β"]
    words = ["", "", "", "@a[1]", "@Achilles", "@μῆνιν[2]", "@[0]", "@b[10]", "@foo.bar", "@x.y[2]"]
    def single():
        return ".".join(rng.choice(vals) for _ in range(rng.randint(1, 5))) + rng.choice(words)
    if rng.random() < .45:
        return single()
    a = single()
    if rng.random() < .3:
        b = a.split("@")[0].split(".")
        b[-1] = rng.choice(vals)
        return a + "-" + ".".join(b) + rng.choice(words)
    return a + "-" + single()


def scenarios(rng, tier, mc):
    for n, h in enumerate(mc):
        yield {"id": "mc%d" % n, "class": "every small reference", "ops": [["read", h["t"]]]}
    for n in range(7000 if tier == "quick" else 20000):
        ops, pool = [], [gen(rng) for _ in range(5)]
        for _ in range(rng.randint(2, 8)):
            k = rng.random()
            t = rng.choice(pool)
            if k < .4:
                ops.append(["read", t])
            elif k < .6:
                ops.append(["same", t, rng.choice(pool), rng.choice(["str", "tuple", "two", "ref"]), rng.choice(["str", "tuple", "two"])])
            elif k < .7:
                ops.append(["text", t])
            else:
                ops.append(["set", [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))], rng.choice(pool), rng.randint(1, 4)])
        yield {"id": "r%d" % n, "class": "random references", "ops": ops}


def build(t, how="str"):
    from MyCapytain.common.reference import CtsReference
    if how == "str":
        return CtsReference(t)
    a, _, b = t.partition("-")
    if how == "tuple":
        return CtsReference((a, b or None))
    if how == "ref":
        return CtsReference(CtsReference(t))
    if how == "two" and b:
        return CtsReference(a, b)
    return CtsReference((a, b or None))


def sub(x):
    return {"text": S(x), "word": S(x.word), "n": I(x.counter)}


def single(x):
    w = O(x.subreference, sub)
    if w and (tuple(x.subreference) != (x.subreference.word, x.subreference.counter)
              or x.subreference.tuple() != (x.subreference.word, x.subreference.counter)):
        w[0]["word"] = "!!tuple"
    lst = L(x.list)
    if L(list(iter(x))) != lst:
        lst = ["!!iteration differs"]
    return {"text": S(x), "list": lst, "depth": I(x.depth), "len": I(len(x)), "sub": w}


def read(t):
    r = build(t)
    p = r.parent
    cps = []
    for c in (copy.copy(r), copy.deepcopy(r), pickle.loads(pickle.dumps(r))):
        cps.append({"str": S(str(c)), "eq": B(c == r), "hash": hash(c) == hash(r)})
    return {"str": S(str(r)), "start": single(r.start), "end": [] if not r.is_range() else [single(r.end)],
            "range": B(r.is_range()), "highest": S(r.highest), "depth": I(r.depth),
            "parent": O(p, lambda q: S(str(q))), "parenteq": p is None or p == build(str(p)),
            "sub": O(r.subreference), "copies": cps}


def execute(scn):
    from MyCapytain.common.reference import CtsReference, CtsReferenceSet, Citation
    ev = []
    for op in scn["ops"]:
        if op[0] == "read":
            ev.append({"op": "read", "t": op[1], "obs": read(op[1])})
        elif op[0] == "same":
            a, b = build(op[1], op[3]), build(op[2], op[4])
            ev.append({"op": "same", "t": op[1], "u": op[2], "eq": B(a == b), "ne": B(a != b), "hash": hash(a) == hash(b)})
        elif op[0] == "text":
            a = build(op[1])
            ev.append({"op": "text", "eq": B(a == op[1])})
        elif op[0] == "set":
            c = Citation(name="x", refsDecl="/a[@n='$1']")
            q = build(op[2])
            xs = CtsReferenceSet([build(t) for t in op[1]], citation=c, **({} if op[3] == 1 else {"level": op[3]}))
            def idx(o):
                try:
                    return xs.index(o) + 1
                except ValueError:
                    return 0
            ev.append({"op": "set", "members": op[1], "q": op[2], "lv": op[3], "str": [S(str(x)) for x in xs],
                       "in_str": op[2] in xs, "in_ref": q in xs, "idx_str": idx(op[2]), "idx_ref": idx(q),
                       "level": I(xs.level), "cit": xs.citation is c})
    return {"id": scn["id"], "ev": ev}
