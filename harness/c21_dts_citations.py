"""C21: DTS citations and sets of them; references and sets of references."""
import copy
import json
import pickle
from fw import S, O, I, L, B, obs
MC = [("MCDtsCite.tla", "MCDtsCite.cfg")]
MC_THOROUGH = [("MCDtsCite.tla", "MCDtsCite.cfg"), ("MCDtsCite.tla", "MCDtsCiteBig.cfg")]
TRACE = ("TraceDtsCite.tla", "Trace.cfg")
REQUIRED_OPS = ["build", "add", "assign", "depth", "look", "export", "copy", "eq", "eqtops", "refs", "sets"]
TIMEOUT = 20
ASSUMPTIONS = ["citations are trees: a citation is in one place of one structure", "negative levels are counted on sets whose depth was not given by hand"]
DTS = "https://w3id.org/dts/api#"


def opt(q):
    return q[0] if q else None


def ld(f, style):
    """ the expanded JSON-LD of a forest """
    out = []
    for n in f:
        d = {}
        if n["name"] or style == 2:
            d[DTS + "citeType"] = [{"@value": opt(n["name"])}]
        if n["kids"] or style == 1:
            d[DTS + "citeStructure"] = ld(n["kids"], style)
        out.append(d)
    return out


def maker(how):
    from MyCapytain.common.reference import DtsCitation

    def make(n):
        if how == "ctor":
            return DtsCitation(name=opt(n["name"]), children=[make(k) for k in n["kids"]])
        if how == "ingest":
            return DtsCitation.ingest(ld([n], 0)[0])
        c = DtsCitation(opt(n["name"]))
        if how == "assign":
            c.children = [make(k) for k in n["kids"]]
        else:
            for k in n["kids"]:
                c.add_child(make(k))
        return c
    return make


def down(parent, kids):
    """ add from the top to the bottom """
    from MyCapytain.common.reference import DtsCitation
    for k in kids:
        c = DtsCitation(opt(k["name"]))
        parent.add_child(c)
        down(c, k["kids"])


def build(scn, op):
    from MyCapytain.common.reference import DtsCitationSet, DtsCitation
    how = op["how"]
    make = maker(how)
    if scn["set"]:
        if how == "ingest":
            return DtsCitationSet.ingest(ld(op["f"], op["style"]))
        if how == "ctor":
            return DtsCitationSet([make(k) for k in op["f"]])
        top = DtsCitationSet()
    else:
        if how in ("ingest", "ctor"):
            return make({"name": op["top"], "kids": op["f"]})
        top = DtsCitation(opt(op["top"]))
    if how == "down":
        down(top, op["f"])
    elif how == "assign":
        top.children = [make(k) for k in op["f"]]
    else:
        for k in op["f"]:
            top.add_child(make(k))
    return top


def names(q):
    return [O(c.name) for c in q]


def size(f):
    return sum(1 + size(n["kids"]) for n in f)


def look(scn, top, i):
    x = top if i == 0 else list(top)[i - (1 if scn["set"] else 0)]
    kind = i == 0 and scn["set"]
    d = max(0, len(x) and 6)
    nodes = list(top) + [top]
    out = {"depth": I(x.depth), "len": I(len(x)), "iter": names(x), "kids": names(x.children), "levels": [names(x[k]) for k in range(0, d + 1)],
           "neg": [obs(lambda k=k: names(x[-k]), lambda v: v) for k in range(1, 7)] if kind else [],
           "roots": B(all(n.root is top for n in nodes if n is not top)) if scn["set"] else B(all(n.root is top for n in nodes)), "isroot": B(x.is_root()), "empty": B(x.is_empty())}
    if not kind:
        out.update(name=O(x.name), isset=B(x.is_set()))
    return out


def plain(j, q):
    j = j if isinstance(j, list) else [j]
    return [{"name": O(n[q("citeType")]), "kids": plain(n.get(q("citeStructure"), []), q)} for n in j]


def forest(c):
    return [{"name": O(x.name), "kids": forest(x.children)} for x in c]


def export(scn, x, kind):
    from pyld.jsonld import expand
    from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, get_graph
    from MyCapytain.common.reference import DtsCitationSet, DtsCitation
    q = lambda t: str(get_graph().namespace_manager.qname(RDF_NAMESPACES.DTS.term(t)))
    j = json.loads(json.dumps(x.export(Mimetypes.JSON.DTS.Std, context=False)))
    c = expand(json.loads(json.dumps(x.export(Mimetypes.JSON.DTS.Std, context=True))))
    if kind:
        back = forest(DtsCitationSet.ingest(c[0].get(DTS + "citeStructure", []) if c else []).children)
    else:
        back = forest([DtsCitation.ingest(c[0] if c else {})])
    return {"plain": plain(j, q), "dflt": plain(json.loads(json.dumps(x.export(Mimetypes.JSON.DTS.Std))), q), "back": back}


def ref(r):
    from MyCapytain.common.reference import DtsReference, BaseReference
    if r["cls"] == "str":
        return r["s"]
    a = (r["s"],) if not r["e"] and r["short"] else (r["s"], opt(r["e"]))
    if r["cls"] == "base":
        return BaseReference(*a)
    if r["type"] and r["late"]:
        x = DtsReference(*a)
        x.type = r["type"][0]
        return x
    return DtsReference(*a, type_=opt(r["type"]))


def refset(a):
    from MyCapytain.common.reference import DtsReferenceSet, BaseReferenceSet, DtsCitation
    cls = DtsReferenceSet if a["cls"] == "dts" else BaseReferenceSet
    c = DtsCitation(a["cit"][0]) if a["cit"] else None
    q = [ref(r) for r in a["refs"]]
    return cls(*q, citation=c, level=a["level"]) if a["how"] == "args" else cls(q if a["how"] == "list" else iter(q), citation=c, level=a["level"])


def refs(op):
    a, b = ref(op["a"]), ref(op["b"])
    t = [S(str(a.type))] if op["a"]["cls"] == "dts" and a.type is not None else []
    return {"eq": B(a == b), "back": B(b == a), "ne": B(a != b), "hash": B(hash(a) == hash(b)), "a": {"s": S(a.start), "e": O(a.end), "range": B(a.is_range()), "type": t}}


def sets(op):
    a, b = refset(op["a"]), refset(op["b"])
    return {"eq": B(a == b), "ne": B(a != b), "hash": B(hash(a) == hash(b)), "len": I(len(a)), "level": I(a.level), "cit": O(None if a.citation is None else a.citation.name), "in": [B(ref(p) in a) for p in op["in"]]}


def execute(scn):
    from MyCapytain.common.constants import set_graph, bind_graph
    set_graph(bind_graph())
    ev, top = [], None
    for op in scn["ops"]:
        e = dict(op)
        k = op["op"]
        off = 1 if scn["set"] else 0
        if "at" in op or k == "eq":
            n = len(top)
            for key in ("at", "a", "b"):
                if key in op:
                    lo = 1 if key != "at" and scn["set"] else 0
                    e[key] = lo + op[key] % (n + 1 - lo) if n + 1 - lo > 0 else -1
            if -1 in (e.get("a"), e.get("b")):
                continue
        node = lambda i: top if i == 0 else list(top)[i - off]
        if k == "build":
            def made():
                nonlocal top
                top = build(scn, op)
            e["obs"] = obs(made, lambda v: "")
            if top is None:
                ev.append(e)
                break
        elif k == "add":
            e["obs"] = obs(lambda: node(e["at"]).add_child(maker(op["how"])(op["n"])), lambda v: "")
        elif k == "assign":
            def assign():
                x = node(e["at"])
                old = list(x.children)
                q = []
                for it in op["items"]:
                    if it["k"] == "old":
                        q += old[it["i"] - 1:it["i"]]
                    else:
                        q.append(maker("ctor")(it["n"]) if it["k"] == "new" else None)
                x.children = q
            e["obs"] = obs(assign, lambda v: "")
        elif k == "depth":
            e["obs"] = obs(lambda: setattr(top, "depth", op["n"]), lambda v: "")
        elif k == "look":
            e["obs"] = obs(lambda: look(scn, top, e["at"]), lambda v: v)
        elif k == "export":
            e["obs"] = obs(lambda: export(scn, node(e["at"]), e["at"] == 0 and scn["set"]), lambda v: v)
        elif k == "copy":
            e["obs"] = obs(lambda: look(scn, copy.deepcopy(top) if op["how"] == "deep" else pickle.loads(pickle.dumps(top)), 0), lambda v: v)
        elif k == "eq":
            e["obs"] = obs(lambda: [B(node(e["a"]) == node(e["b"])), B(node(e["a"]) != node(e["b"]))], lambda v: v)
        elif k == "eqtops":
            other = maker(op["how"])(op["other"])
            e["obs"] = obs(lambda: [B(top == other), B(top != other), B(other == top)], lambda v: v)
        elif k == "refs":
            e["obs"] = obs(lambda: refs(op), lambda v: v)
        elif k == "sets":
            e["obs"] = obs(lambda: sets(op), lambda v: v)
        ev.append(e)
    return {"id": scn["id"], "set": B(scn["set"]), "ev": ev}


NAMES = ["livre", "poème", "line", "a", "b", "§", "ἔπος", "a b"]
HOW = ["ingest", "ctor", "down", "up", "assign"]


def tree(rng, d, w=3, none=.15):
    return {"name": [] if rng.random() < none else [rng.choice(NAMES[3:5] if rng.random() < .5 else NAMES)], "kids": wood(rng, d - 1, w) if d > 1 and rng.random() < .6 else []}


def wood(rng, d, w=3):
    return [tree(rng, d, w) for _ in range(rng.randint(0, w))]


def someref(rng, strs=False):
    c = rng.choice(["dts"] * 4 + ["base"] + (["str"] * 2 if strs else []))
    return {"cls": c, "s": rng.choice(["1", "2", "1.1", "é"]), "e": [] if rng.random() < .6 or c == "str" else [rng.choice(["2", "1", "1.9"])], "type": [rng.choice(["poem", "é"])] if c == "dts" and rng.random() < .5 else [], "late": rng.random() < .5, "short": rng.random() < .5}


def someset(rng):
    return {"cls": "dts" if rng.random() < .9 else "base", "refs": [someref(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))], "level": rng.choice([1, 1, 2, 3]), "cit": rng.choice([[], ["a"], ["b"]]), "how": rng.choice(["args", "list", "iter"])}


def vary(rng, r, strs=False):
    """ the same, or one thing changed """
    if rng.random() < .4:
        return dict(r, short=rng.random() < .5, late=rng.random() < .5)
    o = someref(rng, strs)
    k = rng.choice(["s", "e", "type", "cls"])
    n = dict(r, **{k: o[k]})
    if n["cls"] != "dts":
        n["type"] = []
    if n["cls"] == "str":
        n["e"] = []
    return n


def compares(rng):
    a = someref(rng)
    yield {"op": "refs", "a": a, "b": vary(rng, a)}
    s = someset(rng)
    b = json.loads(json.dumps(s))
    b["how"] = rng.choice(["args", "list", "iter"])
    r = rng.random()
    if r < .3 and b["refs"]:
        i = rng.randrange(len(b["refs"]))
        b["refs"][i] = vary(rng, b["refs"][i])
    elif r < .4:
        b["refs"].reverse()
    elif r < .5:
        b["refs"].append(someref(rng))
    elif r < .7:
        k = rng.choice(["level", "cit", "cls"])
        b[k] = someset(rng)[k]
    yield {"op": "sets", "a": s, "b": b, "in": [vary(rng, rng.choice(s["refs"]), True) if s["refs"] and rng.random() < .7 else someref(rng, True) for _ in range(3)]}


def history(rng, scn, n):
    f = wood(rng, rng.choice([1, 2, 3, 4]))
    ops = [{"op": "build", "how": rng.choice(HOW), "style": rng.randint(0, 2), "f": f, "top": [] if scn["set"] else [rng.choice(NAMES)]}]
    for _ in range(n):
        at = rng.choice([0, rng.randint(0, 40)])
        k = rng.choice(["add", "assign", "look", "look", "look", "export", "copy", "eq", "eq", "eqtops", "depth", "cmp"])
        if k == "add":
            ops.append({"op": k, "at": at, "how": rng.choice(["ingest", "ctor", "up", "assign"]), "n": tree(rng, 3, 2)})
        elif k == "assign":
            ops.append({"op": k, "at": at, "items": [{"k": "old", "i": i, "n": 0} for i in rng.sample([1, 2, 3], rng.randint(0, 3))] + [rng.choice([{"k": "none", "i": 0, "n": 0}, {"k": "new", "i": 0, "n": tree(rng, 2, 2)}]) for _ in range(rng.randint(0, 2))]})
            rng.shuffle(ops[-1]["items"])
        elif k in ("look", "export"):
            ops.append({"op": k, "at": at})
        elif k == "copy":
            ops.append({"op": k, "how": rng.choice(["deep", "pickle"])})
        elif k == "eq":
            ops.append({"op": k, "a": rng.randint(0, 40), "b": rng.randint(0, 40)})
        elif k == "eqtops" and not scn["set"] and len(ops) == 1:
            o = {"name": ops[0]["top"], "kids": f}
            if rng.random() < .5:
                o = json.loads(json.dumps(o))
                x = o
                while x["kids"] and rng.random() < .7:
                    x = rng.choice(x["kids"])
                x["name"] = [rng.choice(NAMES)]
            ops.append({"op": k, "how": rng.choice(["ingest", "ctor", "up", "assign"]), "other": o})
        elif k == "depth" and scn["set"] and rng.random() < .4:
            ops.append({"op": k, "n": rng.randint(1, 5)})
        elif k == "cmp":
            ops += list(compares(rng))
    ops.append({"op": "look", "at": 0})
    return ops


def scenarios(rng, tier, mc):
    mc = rng.sample(mc, min(len(mc), 500 if tier == "quick" else 5000))
    for n, m in enumerate(mc):
        scn = {"set": n % 2 == 0, "id": "mc%d" % n, "class": "growth of the specification"}
        ops = [{"op": "build", "how": rng.choice(HOW), "style": 0, "f": [], "top": [] if scn["set"] else ["t"]}]
        for h in m["hist"]:
            if h["cut"]:
                ops.append({"op": "assign", "at": h["at"], "items": [{"k": "none", "i": 0, "n": 0}] + [{"k": "old", "i": i, "n": 0} for i in range(2, 8)]})
            else:
                ops.append({"op": "add", "at": h["at"], "how": rng.choice(["ingest", "ctor", "up"]), "n": {"name": h["name"], "kids": []}})
            ops.append({"op": "look", "at": rng.randint(0, 9)})
        ops += [{"op": "look", "at": 0}, {"op": "export", "at": 0}, {"op": "export", "at": rng.randint(1, 9)}]
        scn["ops"] = ops
        yield scn
    for n in range(3500 if tier == "quick" else 12000):
        scn = {"set": rng.random() < .6, "id": "r%d" % n}
        scn["ops"] = history(rng, scn, rng.randint(2, 8))
        scn["class"] = "set" if scn["set"] else "citation"
        yield scn
