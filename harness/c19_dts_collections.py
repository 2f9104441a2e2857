"""C19: collections of a DTS endpoint, their members and parents, page after page."""
import json
import dtsapi
from fw import S, O, I, L, B, obs
MC = [("MCDtsColl.tla", "MCDtsColl.cfg")]
MC_THOROUGH = [("MCDtsColl.tla", "MCDtsColl.cfg"), ("MCDtsColl.tla", "MCDtsCollBig.cfg")]
TRACE = ("TraceDtsColl.tla", "Trace.cfg")
REQUIRED_OPS = ["get", "kids", "parents", "child", "retrieve", "info", "desc", "look", "static"]
TIMEOUT = 60
ASSUMPTIONS = ["the endpoint answers as the DTS draft says , does not change between requests and identifies collections by absolute IRIs (@id, @type, title and totalItems for every member, hydra:view with hydra:next for every page but the last)", "titles and descriptions have no language"]


def cite(q):
    return [{"name": S(c.name), "kids": cite(c)} for c in q.children]


def info(c):
    from MyCapytain.common.constants import RDF_NAMESPACES
    return {"id": S(c.id), "title": S(str(c.get_label())), "type": S(str(c.type)), "size": I(c.size), "desc": sorted(S(str(x)) for x in c.metadata.get(RDF_NAMESPACES.HYDRA.description)), "readable": B(c.readable),
            "cite": cite(c.citation), "depth": I(c.citation.depth), "meta": dtsapi.stmts(c.metadata, skip=(dtsapi.HYD, dtsapi.DTS, "http://purl.org/capitains"))}


def execute(scn):
    with dtsapi.served(scn) as ep:
        return run(scn, ep)


def run(scn, ep):
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    from MyCapytain.resources.collections.dts import DtsCollection
    from MyCapytain.common.constants import set_graph, bind_graph
    set_graph(bind_graph())
    res = HttpDtsResolver(dtsapi.text(scn["entry"]))
    table, num = [], {}

    def name(o):
        if id(o) not in num:
            table.append(o)
            num[id(o)] = len(table)
        return [S(o.id), num[id(o)]]
    names = lambda q: [name(o) for o in q]
    ids = lambda q: [S(x) for x in q]
    ev = [{"op": "serve"}]
    for op in scn["ops"]:
        e = dict(op)
        k = op["op"]
        ep.log, ep.served, ep.faults = [], [], list(op.get("faults", []))
        e.pop("faults", None)
        if k not in ("get", "static"):
            if not table:
                continue
            e["o"] = (op["slot"] % len(table)) + 1 if op["slot"] >= 0 else len(table)
            h = table[e["o"] - 1]
        if k == "get":
            e["obs"] = obs(lambda: name(res.getMetadata(op["id"][0]) if op["id"] else res.getMetadata()), lambda x: x)
        elif k == "kids":
            how = op["how"]
            e["obs"] = obs(lambda: {"members": lambda: names(h.members), "values": lambda: names(h.children.values()), "keys": lambda: ids(h.children.keys()), "iter": lambda: ids(h.children),
                                    "items": lambda: ids(x for x, y in h.children.items() if y.id == x), "len": lambda: len(h.children)}[how](), lambda x: x)
        elif k == "parents":
            e["obs"] = obs(lambda: len(h.parents) if op["how"] == "len" else names(h.parents), lambda x: x)
        elif k == "child":
            e["obs"] = obs(lambda: name(h.children[op["id"]]), lambda x: x)
        elif k == "retrieve":
            e["obs"] = obs(h.retrieve, B)
        elif k == "info":
            e["obs"] = obs(lambda: info(h), lambda x: x)
        elif k == "desc":
            e["rd"] = []

            def desc():
                q = names(h.descendants)
                e["rd"] = ids(x.id for x in h.readableDescendants)
                return q
            e["obs"] = obs(desc, lambda x: x)
        elif k == "look":
            e["obs"] = obs(lambda: op["id"] in h, B) if op["how"] == "in" else obs(lambda: name(h[op["id"]]), lambda x: x)
        elif k == "static":
            body = ep.collection({"id": op["id"], "nav": op["nav"], "page": str(op["page"])}, lambda o: o)
            body = json.loads(json.dumps(body))

            def static():
                c = DtsCollection.parse(body, direction=op["nav"])
                ks = list(c.children.values())
                return {"info": info(c), "kids": ids(c.children), "pars": ids(p.id for p in c.parents), "back": [ids(p.id for p in m.parents) for m in ks]}
            e["obs"] = obs(static, lambda x: x)
        e["q"] = ep.log
        ev.append(e)
    return {"id": scn["id"], "entry": scn["entry"], "routes": scn["routes"], "colls": scn["colls"], "per": scn["per"], "oneview": B(scn["oneview"]), "wide": B(scn["wide"]), "ev": ev}


def world(rng, kids):
    """ the records of a graph given as lists of members (by position) """
    def tree(d):
        return [{"name": rng.choice(["livre", "poème", "line", "§"]), "kids": tree(d - 1) if d > 1 and rng.random() < .6 else []} for _ in range(rng.randint(1, 2))]
    form = rng.choice(["urn:a:%s", "urn:cts:latinLit:é.%s", "http://example.org/c?x=%s&y=é", "https://example.org/c/%s#1"])
    ids = {k: form % k for k in kids}
    out = []
    for k in kids:
        out.append({"id": ids[k], "type": "Resource" if not kids[k] and rng.random() < .8 else "Collection", "title": rng.choice(["Lettres", "Épigrammes", "a \"b\" <c>", "T" + k]), "desc": [rng.choice(["Une collection", "é & x"])] if rng.random() < .4 else [],
                    "meta": dtsapi.statements(rng, rng.choice([0, 1, 3])), "depth": [rng.randint(1, 5)] if rng.random() < .4 else [], "cite": tree(3) if rng.random() < .4 else [], "kids": [ids[j] for j in kids[k]]})
    return out


def setting(rng, kids, per=None):
    scn = dtsapi.setting(rng)
    scn["colls"] = world(rng, kids)
    scn["per"] = per or rng.choice([1, 2, 3, 50])
    return scn


def graph(rng):
    n = rng.randint(1, 9)
    ks = {}
    for i in range(1, n + 1):
        c = [str(j) for j in range(i + 1, n + 1) if rng.random() < rng.choice([.25, .6])]
        rng.shuffle(c)
        ks[str(i)] = c[:5]
    return ks


HOW = ["members", "values", "keys", "iter", "items", "len"]


def history(rng, scn, n):
    ids = [c["id"] for c in scn["colls"]]
    some = lambda: rng.choice(ids + ["zz"]) if rng.random() < .2 else rng.choice(ids)
    ops = [{"op": "get", "id": [] if rng.random() < .3 else [ids[0]]}]
    for _ in range(n):
        k = rng.choice(["get", "kids", "kids", "kids", "parents", "parents", "child", "child", "retrieve", "retrieve", "info", "info", "desc", "look", "static"])
        o = {"op": k, "slot": rng.choice([-1, -1, 0, rng.randint(0, 30)])}
        if k == "get":
            o["id"] = [rng.choice(ids)] if rng.random() < .9 else []
        elif k == "kids":
            o["how"] = rng.choice(HOW)
        elif k == "parents":
            o["how"] = rng.choice(["iter", "iter", "len"])
        elif k == "child":
            o["id"] = some()
        elif k == "look":
            o.update(id=some(), how=rng.choice(["in", "item"]))
        elif k == "static":
            c = rng.choice(scn["colls"])
            nav = rng.choice(["children", "parents"])
            m = len(c["kids"]) if nav == "children" else sum(c["id"] in d["kids"] for d in scn["colls"])
            o.update(id=c["id"], nav=nav, page=rng.randint(1, max(1, -(-m // scn["per"]))))
        if k not in ("info", "static"):
            o["faults"] = dtsapi.faults(rng, .4 if k == "retrieve" else .15, dtsapi.JSONFAULTS, 1 if k == "retrieve" else 3)
            if k == "retrieve" and rng.random() < .6:
                o["slot"] = rng.choice([-1, rng.randint(1, 30)])
        ops.append(o)
    return ops


def scenarios(rng, tier, mc):
    mc = rng.sample(mc, min(len(mc), 600 if tier == "quick" else 4000))
    for n, m in enumerate(mc):
        scn = setting(rng, {str(i + 1): k for i, k in enumerate(m["kids"])}, m["per"])
        ids = [c["id"] for c in scn["colls"]]
        ops = []
        for q in m["hist"]:
            f = [""] * (q["fault"] - 1) + [rng.choice(dtsapi.JSONFAULTS)] if q["fault"] else []
            if q["op"] == "get":
                ops.append({"op": "get", "id": [ids[q["slot"] - 1]]})
            elif q["op"] == "read":
                ops.append({"op": "kids", "how": rng.choice(HOW), "slot": q["slot"] - 1, "faults": f} if q["nav"] == "children" else {"op": "parents", "how": "iter", "slot": q["slot"] - 1, "faults": f})
            else:
                ops.append({"op": "kids", "how": "members", "slot": q["slot"] - 1} if q["nav"] == "children" else {"op": "parents", "how": "iter", "slot": q["slot"] - 1})
            ops.append({"op": "info", "slot": -1})
        scn.update({"id": "mc%d" % n, "class": "walk of the specification", "ops": ops})
        yield scn
    for n in range(3000 if tier == "quick" else 8000):
        scn = setting(rng, graph(rng))
        scn.update({"id": "r%d" % n, "class": "%d collections" % len(scn["colls"]), "ops": history(rng, scn, rng.randint(3, 10))})
        yield scn
