"""C15: what the local resolver answers is what the repository holds."""
import repoops
import docgen
MC = [("MCRepo.tla", "MCRepoBig.cfg")]
MC_THOROUGH = [("MCRepo.tla", "MCRepo.cfg"), ("MCRepo.tla", "MCRepoBig.cfg")]
TRACE = ("TraceRepo.tla", "Trace.cfg")
REQUIRED_OPS = ["load", "meta", "filter", "page", "rnode", "rreffs", "rsib", "fill"]
TIMEOUT = 90
ASSUMPTIONS = ["identifiers are given as strings without passage", "a work identifier stands for any of its editions"]


def questions(rng, repo, docs, scn, n):
    g, w, t = repoops.ids(repo)
    doc = {}
    for f in repo:
        for y in f:
            for z in y["works"]:
                for x in z["texts"]:
                    doc[x["id"]] = x["doc"]
    un = [docgen.units(d) for d in docs]
    out = [{"op": "meta", "arg": []}]
    for _ in range(n):
        k = rng.choice(["meta", "meta", "filter", "filter", "page", "rnode", "rnode", "rreffs", "rsib", "fill"])
        if k == "meta":
            a = rng.choice(g + w + t + scn["invs"] + ["urn:cts:latinLit:phi99", g[0] + ".w", scn["root"]])
            out.append({"op": "meta", "arg": [a]})
        elif k == "filter":
            out.append({"op": "filter", "obj": rng.random() < .4, "urn": [rng.choice(g + w + t)] if rng.random() < .5 else [], "lang": [rng.choice(repoops.LANGS)] if rng.random() < .3 else [],
                        "cat": [rng.choice(["ed", "tr", "co"])] if rng.random() < .3 else [], "paged": rng.random() < .6,
                        "page": [rng.randint(1, 4)] if rng.random() < .8 else [], "limit": [rng.choice([1, 2, 3, 10, 101])] if rng.random() < .8 else []})
        elif k == "page":
            lim = rng.choice([0, 1, 2, 3, 10, 30, 99, 100, 101])
            out.append({"op": "page", "page": [rng.randint(1, 12)] if rng.random() < .85 else [], "limit": [lim] if rng.random() < .85 else [],
                        "length": rng.choice([0, 1, lim, 2 * lim, 2 * lim + 1, rng.randint(0, 300)])})
        elif k == "fill":
            out.append({"op": k, "id": rng.choice(t + ["urn:cts:latinLit:phi99.w1.a"])})
        else:
            if not t:
                continue
            x = rng.choice(t)
            d = doc[x] - 1
            root, levels = un[d]
            if x.rsplit(".", 1)[0] in w and rng.random() < .2:
                x = x.rsplit(".", 1)[0]
            elif rng.random() < .05:
                x = rng.choice(["urn:cts:latinLit:phi99.w1.a", g[0], "urn:cts:latinLit"])
            if rng.random() < .3:
                ref = docgen.pick_range(rng, root, levels)
            elif rng.random() < .1:
                ref = "99.99"
            else:
                lv = rng.choice([v for v in levels if v])
                ref = ".".join(rng.choice(lv)[0])
            if k == "rnode":
                out.append({"op": k, "id": x, "ref": [ref] if rng.random() < .8 else [], "meta": rng.random() < .4, "str": rng.random() < .5})
            elif k == "rreffs":
                out.append({"op": k, "id": x, "ref": [ref] if rng.random() < .6 else [], "lv": rng.randint(1, len(docs[d]["sch"]) + (rng.random() < .1)), "str": False})
            else:
                out.append({"op": k, "id": x, "ref": [ref], "str": rng.random() < .5})
    out.append({"op": "meta", "arg": []})
    return out


def scenarios(rng, tier, mc):
    for n in range(1100 if tier == "quick" else 4000):
        repo, docs = repoops.repository(rng, rng.randint(1, 4), rng.choice([0, .15, .3]))
        for f in repo:
            for g in f:
                g["meta"] = "ok"
        scn = {"id": "r%d" % n, "class": "%d folders" % len(repo), "repo": repo, "docs": docs, "strict": False, "undis": False}
        repoops.disposition(rng, scn)
        if not scn["rules"] or scn["rules"][0]["kind"] != "all":
            scn["rules"] = [{"inv": scn["invs"][0], "kind": "all", "arg": ""}] + scn["rules"]
        scn["ask"] = questions(rng, repo, docs, scn, 10)
        yield scn


execute = repoops.execute
