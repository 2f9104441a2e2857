"""C14: dispatching collections to inventories."""
import collops
MC = [("MCDispatch.tla", "MCDispatch.cfg")]
TRACE = ("TraceColl.tla", "Trace.cfg")
REQUIRED_OPS = ["new", "dispatch", "heap"]
ASSUMPTIONS = ["rules answer True, False, None or a truthy value; a collection is dispatched once"]


def scenarios(rng, tier, mc):
    for n, h in enumerate(mc):
        yield {"id": "mc%d" % n, "class": "specification history", "ops": h, "every": False, "quiet": 5}
    for n in range(2000 if tier == "quick" else 8000):
        k = rng.randint(1, 5)
        ops = [{"op": "new", "cls": "ic", "id": "ic", "par": 0}]
        ops += [{"op": "new", "cls": "inv", "id": "inv%d" % i, "par": 1} for i in range(k)]
        first = rng.random() < .4
        rules = [{"inv": "inv%d" % (0 if first else rng.randrange(k)), "kind": "all", "arg": ""}]
        for _ in range(rng.randint(0, 6)):
            kind = rng.choice(["prefix", "prefix", "path", "path", "never", "truthy", "all"][:6 if rng.random() < .8 else 7])
            arg = {"prefix": rng.choice(["urn:cts:latinLit:", "urn:cts:greekLit:", "urn:cts:latinLit:phi1", "urn:cts:latinLit:phi12", "urn"]),
                   "path": rng.choice(["/a/", "/a/b", "/c"])}.get(kind, "")
            rules.append({"inv": "inv%d" % rng.randrange(k), "kind": kind, "arg": arg})
        seen = set()
        for _ in range(rng.randint(1, 6)):
            id_ = "urn:cts:%s:%s" % (rng.choice(["latinLit", "greekLit", "other"]), rng.choice(["phi1", "phi12", "phi1294", "tlg1", "phi2"]))
            if id_ in seen and rng.random() < .8:
                continue
            seen.add(id_)
            ops.append({"op": "new", "cls": "tg", "id": id_, "par": 0})
            c = sum(1 for o in ops if o["op"] == "new")
            if rng.random() < .5:
                ops.append({"op": "new", "cls": "wk", "id": ops[-1]["id"] + ".w" + rng.choice("12"), "par": c})
            ops.append({"op": "dispatch", "root": 1, "rules": rules, "c": c, "path": rng.choice(["/a/b/c", "/a/d", "/c/x", "/z"]), "first": first})
        yield {"id": "r%d" % n, "class": "%d rules" % (len(rules) - 1), "ops": ops, "every": False, "quiet": 1 + k, "xml": rng.random() < .5}


execute = collops.execute
