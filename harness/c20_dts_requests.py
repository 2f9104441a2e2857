"""C20: routes of a DTS endpoint, requests sent to it, pages of its link headers."""
import dtsapi
MC = [("MCDts.tla", "MCDts.cfg")]
MC_THOROUGH = [("MCDts.tla", "MCDts.cfg"), ("MCDts.tla", "MCDtsBig.cfg")]
TRACE = ("TraceDts.tla", "Trace.cfg")
REQUIRED_OPS = ["routes", "coll", "nav", "docu", "pag"]
TIMEOUT = 60
ASSUMPTIONS = ["URIs of the entry point are RFC 3986 references without fragment", "replies declare their encoding or are in UTF-8"]


def links(rng):
    out = []
    for rel in rng.sample(["previous", "next", "last", "current", "first", "collection", "up"], rng.randint(0, 5)):
        qs = [["page", str(rng.randint(1, 30))]] if rng.random() < .85 else []
        for x in (["id", "urn:a:b.c"], ["ref", "1 é"], ["per_page", "7"], ["page2", "9"]):
            if rng.random() < .3:
                qs.insert(rng.randint(0, len(qs)), x)
        out.append({"rel": rel, "base": rng.choice(["/api/dts/navigation", "https://dts.example.org/x/", ""]), "qs": qs})
    return out


def opt(rng, p, *vs):
    return [rng.choice(vs)] if rng.random() < p else []


def question(rng):
    x = rng.random()
    ref = lambda: [] if rng.random() < .4 else [{"s": rng.choice(["1", "1.2", "é 1", "a&b", "1-2"]), "e": opt(rng, .4, "2", "1.9", "b+c", "1", "1.2", "é 1", "a&b")}]
    if x < .1:
        return {"op": "routes"}
    if x < .25:
        return {"op": "pag", "links": links(rng), "blank": rng.random() < .5}
    if x < .5:
        return {"op": "coll", "id": opt(rng, .8, *dtsapi.IDS), "nav": opt(rng, .6, "children", "parents"), "page": opt(rng, .5, "1", "2", "10")}
    if x < .8:
        return {"op": "nav", "id": [rng.choice(dtsapi.IDS)], "lv": opt(rng, .5, "0", "1", "2", "-1"), "ref": ref(), "form": rng.choice(["str", "obj", "base"]), "group": opt(rng, .3, "1", "10"), "excl": opt(rng, .3, "dts:extensions", "a b"), "max": opt(rng, .3, "1", "3", "100"), "page": opt(rng, .4, "1", "2", "12")}
    return {"op": "docu", "id": [rng.choice(dtsapi.IDS)], "ref": ref(), "form": rng.choice(["str", "obj", "base"])}


def scenarios(rng, tier, mc):
    for n in range(8000 if tier == "quick" else 20000):
        scn = dtsapi.setting(rng)
        ops = []
        for _ in range(rng.randint(1, 6)):
            o = question(rng)
            if o["op"] != "pag":
                o["faults"] = dtsapi.faults(rng, .12, ["500", "404", "503", "drop", "slow"], 1)
            ops.append(o)
        scn.update({"id": "r%d" % n, "class": "questions", "ops": ops, "body": rng.choice(['{"a": "é"}', "<TEI>Ἰλιάς</TEI>", "", "a\r\nb\n"])})
        yield scn


execute = dtsapi.execute
