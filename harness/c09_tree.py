"""C09: trees of collections under additions and deletions."""
import collops
MC = [("MCColl.tla", "MCColl.cfg")]
MC_THOROUGH = [("MCColl.tla", "MCColl.cfg"), ("MCColl.tla", "MCCollBig.cfg")]
TRACE = ("TraceColl.tla", "Trace.cfg")
REQUIRED_OPS = ["new", "setpar", "del", "heap", "label"]
ASSUMPTIONS = ["an object is given a parent once; no cycles; deleted objects are not put back",
               "after a deletion nothing is assumed about the parent still recorded in the deleted object"]
HIER = ["ic", "inv", "tg", "wk", "ed"]


def lab(ops):
    out, n = [], 0
    for o in ops:
        out.append(o)
        if o["op"] == "new":
            n += 1
            out.append({"op": "label", "o": n})
    return out


def scenarios(rng, tier, mc):
    for n, h in enumerate(mc if tier == "thorough" else rng.sample(mc, min(3000, len(mc)))):
        yield {"id": "mc%d" % n, "class": "specification history", "ops": lab([dict(o, id="urn:cts:n:" + o["id"]) if o["op"] == "new" else dict(o, key="urn:cts:n:" + o["key"]) if o["op"] == "del" else o for o in h])}
    for n in range(1800 if tier == "quick" else 8000):
        ops, objs, dead = [], [], set()
        cts = rng.random() < .6
        names = ["a", "b", "c", "d"][:rng.randint(2, 4)]

        def kids_of(p):
            return [i for i, o in enumerate(objs) if o["par"] == p]

        def find(o, key):  # is key reachable (mirrors nothing of the order: only used to aim deletions)
            todo, seen = [o], []
            while todo:
                x = todo.pop()
                seen.append(x)
                todo += [i for i, q in enumerate(objs) if q["par"] == x + 1 and q["member"]]
            return [x for x in seen if objs[x]["id"] == key]
        for _ in range(rng.randint(3, 14)):
            x = rng.random()
            if x < .62 or not objs:
                par = rng.choice([0] + [i + 1 for i in range(len(objs)) if i not in dead]) if objs else 0
                if cts:
                    cls = "ic" if not par else HIER[min(4, HIER.index(objs[par - 1]["cls"]) + 1)] if objs[par - 1]["cls"] in HIER[:4] else None
                    if not par:
                        cls = rng.choice(HIER[:4])
                    if cls is None:
                        continue
                    if cls == "ed":
                        cls = rng.choice(["ed", "tr", "co"])
                    k = rng.choice(names)
                    id_ = {"ic": "ic" + k, "inv": "inv" + k, "tg": "urn:cts:n:%s" % k, "wk": "urn:cts:n:a.%s" % k}.get(cls, "urn:cts:n:a.a.%s" % k)
                else:
                    cls, id_ = rng.choice(["coll", "coll", "res"]), rng.choice(names)
                late = rng.random() < .3
                ops.append({"op": "new", "cls": cls, "id": id_, "par": 0 if late else par, "lang": [], "cit": [], "late": late and not cts})
                member = not any(objs[i]["id"] == id_ and objs[i]["member"] for i in kids_of(par)) if par else True
                objs.append({"cls": cls, "id": id_, "par": par, "member": member})
                if rng.random() < .8:
                    ops.append({"op": "label", "o": len(objs)})
                if late and par:
                    ops.append({"op": "setpar", "c": len(objs), "p": par})
            else:
                o = rng.randrange(len(objs))
                key = rng.choice([q["id"] for q in objs] + ["urn:cts:zz:zz"])
                if objs[o]["id"] == key and not (objs[o]["par"] == 0 or objs[o]["member"]):
                    continue
                hits = find(o, key)
                if any(objs[i]["par"] and not objs[i]["member"] for i in hits) or len(hits) > 1 or any(i in dead for i in hits):
                    continue
                ops.append({"op": "del", "o": o + 1, "key": key})
                for i in hits:
                    dead.add(i)
                    objs[i]["member"] = False
                    objs[i]["par"] = -1
        yield {"id": "r%d" % n, "class": "cts" if cts else "generic", "ops": ops, "xml": cts and rng.random() < .5}


execute = collops.execute
