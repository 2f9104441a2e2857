"""C17: texts and passages of a remote CTS endpoint."""
import ctsapi
import docgen
import textops
MC = [("MCApi.tla", "MCApi.cfg")]
MC_THOROUGH = [("MCApi.tla", "MCApi.cfg"), ("MCApi.tla", "MCApiBig.cfg")]
TRACE = ("TraceApi.tla", "Trace.cfg")
REQUIRED_OPS = ["open", "rnode", "rplus", "node", "plus", "reffs", "valid", "allreffs", "pn", "fu", "id", "move", "kids", "label", "meta", "cit", "export"]
TIMEOUT = 60
ASSUMPTIONS = ["the endpoint answers as CTS 5 says (absolute levels); faults are HTTP errors, dropped connections and replies which are not XML", "labels are not empty"]


def scenarios(rng, tier, mc):
    if len(mc) > 500 and tier == "quick":
        mc = rng.sample(mc, 500)
    if len(mc) > 6000:
        mc = rng.sample(mc, 6000)
    for n, m in enumerate(mc):
        d = textops.small(m["shape"], n, rng)
        scn = ctsapi.setting(rng, d["doc"], d["sch"])
        ops = []
        for q in m["hist"]:
            f = [""] * (q["fault"] - 1) + [rng.choice(ctsapi.FAULTS)] if q["fault"] else []
            if q["op"] == "open":
                ops += [{"op": "open", "ref": []}, {"op": "node", "ref": q["ref"], "form": "str", "h": "text"}]
            elif q["op"].endswith("Id"):
                ops.append({"op": "id", "which": q["op"], "h": "cur", "ref": [], "faults": f})
            else:
                ops.append({"op": "move", "mv": q["op"], "h": "cur", "ref": [], "faults": f})
        scn.update({"id": "mc%d" % n, "class": "walk of the specification", "ops": ops, "empty": False})
        yield scn
    for n in range(1200 if tier == "quick" else 5000):
        d = docgen.document(rng, limit=60, blanks=True)
        scn = ctsapi.setting(rng, d["doc"], d["sch"])
        scn.update({"id": "r%d" % n, "class": "%d levels" % len(d["sch"]), "ops": ctsapi.history(rng, scn, rng.randint(4, 14))})
        yield scn


execute = ctsapi.execute
