"""C18: references of a DTS navigation route, page after page."""
import dtsapi
MC = [("MCDts.tla", "MCDts.cfg")]
MC_THOROUGH = [("MCDts.tla", "MCDts.cfg"), ("MCDts.tla", "MCDtsBig.cfg")]
TRACE = ("TraceDts.tla", "Trace.cfg")
REQUIRED_OPS = ["reffs"]
TIMEOUT = 60
ASSUMPTIONS = ["the endpoint answers as the DTS draft says (hydra:view with hydra:next for every page but the last); faults are HTTP errors, dropped connections, replies which are not JSON and empty JSON objects",
               "page URIs are plain strings"]


def op(rng, book):
    one = [r for p in book["pages"] for r in p]
    x = rng.random()
    ref = [] if x < .4 else [{"s": rng.choice(["1", "1.2", "é 1", "a&b"]), "e": [] if x < .75 else [rng.choice(["2", "1.9"])]}]
    probes = [rng.choice(one)["s"] for _ in range(2) if one] + rng.sample(["1", "zz", "1.1"], 2)
    o = {"op": "reffs", "id": rng.choice(dtsapi.IDS), "lv": rng.choice([1, 1, 2, 3, 0]), "ref": ref, "form": rng.choice(["str", "obj", "base"]), "group": [str(rng.randint(2, 20))] if rng.random() < .2 else [],
         "excl": [rng.choice(["dts:extensions", "a"])] if rng.random() < .2 else [], "probes": probes, "full": rng.random() < .5}
    o.update(book)
    return o


def scenarios(rng, tier, mc):
    for n, m in enumerate(mc):
        scn = dtsapi.setting(rng)
        book = dtsapi.pages(rng, m["sizes"])
        o = op(rng, book)
        ops, plan = [], list(m["plan"])
        for k in m["ks"]:
            ask = dict(o)
            if k == "x":
                i = plan.index("f")
                ask["faults"] = [""] * i + [rng.choice(dtsapi.JSONFAULTS + ["odd"])]
                plan = plan[i + 1:]
            else:
                while plan and plan[0] == "":
                    plan.pop(0)
            ops.append(ask)
        if m["ks"] == ["v", "x"] and "f" in m["plan"]:  # requests of the first answer are before the fault
            i = len(m["sizes"]) + 1
            ops[1]["faults"] = m["plan"][i:m["plan"].index("f")] + ops[1]["faults"][-1:]
            ops[0].pop("faults", None)
        scn.update({"id": "mc%d" % n, "class": "pages of the specification", "ops": ops})
        yield scn
    for n in range(2800 if tier == "quick" else 8000):
        scn = dtsapi.setting(rng)
        ops = []
        for _ in range(rng.randint(1, 4)):
            o = op(rng, dtsapi.pages(rng, [rng.choice([3, 90, 101, 130, 210]) for _ in range(rng.randint(1, 2))] if n % 40 == 7 else None))
            o["faults"] = dtsapi.faults(rng, .15, dtsapi.JSONFAULTS + ["odd", "odd"], 3)
            ops.append(o)
        scn.update({"id": "r%d" % n, "class": "random pages", "ops": ops})
        yield scn


execute = dtsapi.execute
