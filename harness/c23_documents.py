"""C23: documents of a DTS endpoint and the way from one to the next."""
import docgen
import dtsapi
import textops
MC = [("MCApi.tla", "MCApi.cfg"), ("MCDts.tla", "MCDts.cfg")]
MC_THOROUGH = MC + [("MCApi.tla", "MCApiBig.cfg"), ("MCDts.tla", "MCDtsBig.cfg")]
TRACE = ("TraceDts.tla", "Trace.cfg")
REQUIRED_OPS = ["open", "node", "id", "move", "kids", "hreffs", "meta", "depth"]
TIMEOUT = 60
ASSUMPTIONS = ["the endpoint answers as the DTS draft says (Link header with prev, next, first, last, up, collection); levels are relative to the reference", "a range of two units of different depth has no neighbours"]


def setting(rng, d):
    scn = dtsapi.setting(rng)
    scn.update(doc=d["doc"], sch=d["sch"], tid=rng.choice(dtsapi.IDS), meta=dtsapi.statements(rng, rng.randint(0, 4)), linkbase=rng.choice(["/api/dts/", "https://dts.example.org/x/", ""]), decl=rng.choice(["", '<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>']),
               doctype=rng.choice(["application/tei+xml", "application/xml; charset=utf-8", "application/tei+xml; charset=utf-8"]))
    if not scn["decl"] and rng.random() < .3:  # the encoding is said by the document
        scn.update(doctype=rng.choice(["application/tei+xml", "text/xml", "application/tei+xml; charset=ISO-8859-1"]), bytes="iso-8859-1", decl='<?xml version="1.0" encoding="ISO-8859-1"?>')
    elif rng.random() < .3:
        scn.update(doctype=rng.choice(["text/xml", "text/xml; charset=UTF-8", 'text/xml; charset="utf-8"']))
    cite = []
    for k in reversed(range(len(d["sch"]))):
        cite = [{"name": "lv%d" % (k + 1), "kids": cite}]
    scn["colls"] = [{"id": scn["tid"], "type": "Resource", "title": "T", "desc": [], "meta": scn["meta"], "depth": [len(d["sch"])] if rng.random() < .6 else [], "cite": cite, "kids": []}]
    if scn["colls"][0]["depth"] and rng.random() < .3:
        scn["colls"][0]["cite"] = []
    return scn


def history(rng, scn, n, p=.12):
    root, levels = docgen.units(scn)
    un = [list(q) for lv in levels for q, _ in lv]
    D = len(scn["sch"])

    def ref(rg=.25, unknown=.05):
        x = rng.random()
        if x < rg:
            return docgen.pick_range(rng, root, levels)
        return rng.choice(["99", "1.99", "9-99"]) if x < rg + unknown else ".".join(rng.choice(un))
    depth = lambda r: min(len(x.split(".")) for x in r.split("-"))
    form = lambda: rng.choice(["str", "obj", "base"])
    ops, own, cur = [], None, None
    for _ in range(n):
        k = rng.choice(["open", "node", "node", "id", "id", "id", "move", "move", "move", "kids", "hreffs", "hreffs", "meta", "depth"]) if ops else "open"
        h = rng.choice(["doc", "cur"])
        o = {"op": k, "h": h, "ref": []}
        hold = own if h == "doc" else cur
        if k == "open":
            o.update(ref=[ref()] if rng.random() < .7 else [], form=form())
            own = cur = o["ref"]
        elif k == "node":
            o.update(ref=[ref()], form=form())
            cur = o["ref"]
        elif k == "id":
            o["which"] = rng.choice(["prevId", "nextId", "siblingsId", "parentId", "childIds", "firstId", "lastId"])
        elif k == "move":
            o["mv"] = rng.choice(["next", "prev", "first", "last", "parent"])
        elif k == "hreffs":
            r = [ref(.25, 0)] if rng.random() < .4 else []
            d = depth(r[0]) if r else depth(hold[0]) if hold else 0
            o.update(ref=r, form=form(), lv=rng.randint(1, max(1, D - d)))
        o["faults"] = dtsapi.faults(rng, p, dtsapi.FAULTS, 3) if k != "open" or ops else []
        ops.append(o)
    return ops


def scenarios(rng, tier, mc):
    mc = [m for m in mc if "hist" in m]
    mc = rng.sample(mc, min(len(mc), 300 if tier == "quick" else 6000))
    for n, m in enumerate(mc):
        scn = setting(rng, textops.small(m["shape"], n, rng))
        ops = []
        for q in m["hist"]:
            f = [""] * (q["fault"] - 1) + [rng.choice(dtsapi.FAULTS)] if q["fault"] else []
            if q["op"] == "open":
                ops.append({"op": "open", "ref": q["ref"], "form": rng.choice(["str", "obj"])})
            elif q["op"].endswith("Id"):
                ops.append({"op": "id", "which": q["op"], "h": "cur", "ref": [], "faults": f})
            else:
                ops.append({"op": "move", "mv": q["op"], "h": "cur", "ref": [], "faults": f})
        scn.update({"id": "mc%d" % n, "class": "walk of the specification", "ops": ops})
        yield scn
    for n in range(1200 if tier == "quick" else 6000):
        d = docgen.document(rng, limit=50, blanks=True)
        scn = setting(rng, d)
        scn.update({"id": "r%d" % n, "class": "%d levels" % len(d["sch"]), "ops": history(rng, scn, rng.randint(4, 12))})
        yield scn


execute = dtsapi.execute
