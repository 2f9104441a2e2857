"""C03: citation patterns - numbered / scope+xpath / filled forms stay one pattern under edits."""
import citgen as g
from fw import S, O, I, B

MC = [("MCCitation.tla", "MCCitation.cfg")]
TRACE = ("TraceCitation.tla", "Trace.cfg")
REQUIRED_OPS = ["make", "scope", "xpath", "refsDecl", "fill", "fillnone", "fillx"]
ASSUMPTIONS = ["predicates contain no '/', no '?' and no '$' other than placeholders; the last step has one placeholder; filled values contain no quote"]
VALS = ["1", "2", "10", "a", "pr", "é", "1a", "x_y", "1-2", "0", "\\1", "a\\g<3>", "\\"]


def scenarios(rng, tier, mc):
    mc = mc if tier != "quick" else [m for m in mc if rng.random() < .45]
    for n, p in enumerate(mc):
        ops = [["make", p, "refsDecl"], ["make", p, "split"], ["fillnone"], ["fill", [["v%d" % i] for i in range(g.holes(p))], "list"]]
        yield {"id": "mc%d" % n, "class": "every small pattern", "ops": ops}
    for n in range(4000 if tier == "quick" else 15000):
        p = g.pattern(rng, rng.randint(1, 5) if rng.random() < .97 else rng.randint(9, 12))
        ops = [["make", p, rng.choice(["refsDecl", "split", "splitq"])]]
        for _ in range(rng.randint(2, 9)):
            k = rng.random()
            h = g.holes(p)
            if k < .15:
                q = g.front(rng, rng.randint(1, 2)) + (g.pattern(rng, rng.randint(0, 2)) if rng.random() < .6 else []) if rng.random() < .85 else []
                p = q + p[-1:]
                ops.append(["scope", q])
            elif k < .3:
                q = [g.step(rng, True)]
                p = p[:-1] + q
                ops.append(["xpath", q])
            elif k < .4:
                p = g.pattern(rng, rng.randint(1, 4))
                ops.append(["refsDecl", p])
            elif k < .7:
                vals = [[rng.choice(VALS)] if rng.random() < .7 else [] for _ in range(h)]
                ops.append(["fill", vals, "list"])
                if rng.random() < .5:
                    ops.append(["fill", [[rng.choice(["1", "2", "a", "10", "é"])] for _ in range(h)], rng.choice(["ref", "range"])])
            elif k < .8:
                ops.append(["fillnone"])
            elif k < .95:
                ops.append(["fillx", rng.choice([[], [rng.choice(VALS)]])])
            else:
                ops.append(["remake"])
        yield {"id": "r%d" % n, "class": "random pattern history", "ops": ops}


def read(c):
    return {"refsDecl": S(c.refsDecl), "scope": S(c.scope), "xpath": S(c.xpath), "attribute": S(c.attribute), "isset": B(c.is_set())}


def execute(scn):
    import copy
    import pickle
    from MyCapytain.common.reference import Citation, CtsReference
    c, ev = None, []
    for op in scn["ops"]:
        if op[0] == "make":
            p = op[1]
            if op[2] == "refsDecl":
                c = Citation(name="x", refsDecl=g.text(p))
            elif op[2] == "split":
                c = Citation(name="x", scope=g.text(p[:-1], "anon"), xpath=g.text(p[-1:], "anon"))
            else:
                c = Citation(name="x", scope=g.text(p[:-1], "anon"), xpath=g.text(p[-1:], "anon"))
                c = pickle.loads(pickle.dumps(c))
            ev.append({"op": "make", "p": p, "obs": read(c)})
        elif op[0] == "remake":
            c = copy.copy(c)
            ev.append({"op": "remake", "obs": read(c)})
        elif op[0] == "scope":
            c.scope = g.text(op[1], "anon")
            ev.append({"op": "scope", "q": op[1], "obs": read(c)})
        elif op[0] == "xpath":
            c.xpath = g.text(op[1], "anon")
            ev.append({"op": "xpath", "q": op[1], "obs": read(c)})
        elif op[0] == "refsDecl":
            c.refsDecl = g.text(op[1])
            ev.append({"op": "refsDecl", "q": op[1], "obs": read(c)})
        elif op[0] == "fill":
            vals = op[1]
            if op[2] == "list":
                arg = [v[0] if v else None for v in vals]
            elif op[2] == "ref":
                arg = CtsReference(".".join(v[0] for v in vals))
            else:
                arg = CtsReference(".".join(v[0] for v in vals) + "-" + ".".join("z" for v in vals))
            ev.append({"op": "fill", "vals": vals, "how": op[2], "res": S(c.fill(arg))})
        elif op[0] == "fillnone":
            ev.append({"op": "fillnone", "res": S(c.fill(None))})
        elif op[0] == "fillx":
            ev.append({"op": "fillx", "val": op[1], "res": S(c.fill(op[1][0] if op[1] else None, xpath=True))})
    return {"id": scn["id"], "ev": ev}
