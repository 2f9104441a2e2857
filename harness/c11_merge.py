"""C11: merging works and textgroups; sibling texts."""
import collops
MC = [("MCMerge.tla", "MCMerge.cfg")]
MC_THOROUGH = [("MCMerge.tla", "MCMerge.cfg"), ("MCMerge.tla", "MCMergeBig.cfg")]
TRACE = ("TraceColl.tla", "Trace.cfg")
REQUIRED_OPS = ["new", "update", "heap", "editions", "translations", "names"]
ASSUMPTIONS = ["a work whose texts were moved into another work by a merge is not itself merged again", "texts and works of the same identifier have the same language in both sides of a merge",
               "nothing is assumed about metadata stated after a merge on one side only"]
G = ["urn:cts:n:t", "urn:cts:n:u"]


def clean(h):
    """ no work is merged again once its texts were moved to another work """
    par = [o["par"] for o in h if o["op"] == "new"]
    cls = [o["cls"] for o in h if o["op"] == "new"]
    bad = set()
    for o in h:
        if o["op"] != "update":
            continue
        if o["o"] > len(par) or o["w"] > len(par) or o["o"] in bad or any(b <= len(par) and par[b - 1] == o["o"] for b in bad):
            return False
        if cls[o["w"] - 1] == "wk":
            bad.add(o["o"])
    return True


def scenarios(rng, tier, mc):
    mc = [h for h in mc if clean(h)]
    for n, h in enumerate(mc if tier == "thorough" else rng.sample(mc, min(1500, len(mc)))):
        k = sum(1 for o in h if o["op"] == "new")
        yield {"id": "mc%d" % n, "class": "specification history", "ops": h, "every": False, "quiet": k - 1, "xml": n % 2 == 0}
    for n in range(1600 if tier == "quick" else 8000):
        ops, objs = [], []      # objs: [cls, id, par] of the original objects

        def new(cls, id_, par, lang=(), cit=()):
            if par and any(o[2] == par and o[1] == id_ for o in objs):
                return None
            objs.append([cls, id_, par])
            ops.append({"op": "new", "cls": cls, "id": id_, "par": par, "lang": list(lang), "cit": list(cit)})
            return len(objs)
        count = 0
        root = new("inv", "inv", 0) if rng.random() < .5 else 0
        for g in range(rng.randint(1, 4)):
            gid = rng.choice(G[:1] * 4 + G[1:])
            t = new("tg", gid, root if rng.random() < .4 and not any(o[1] == gid and o[2] == root for o in objs) else 0)
            for w in rng.sample(["w", "v", "w1"], rng.randint(0, 3)):
                wid = gid + "." + w
                k = new("wk", wid, t, ["lat"])
                for x in rng.sample(["a", "b", "c", "d"], rng.randint(0, 4)):
                    count += 1
                    cls = {"a": "ed", "b": "tr", "c": "tr", "d": "co"}[x]
                    if rng.random() < .2:
                        cls = rng.choice(["ed", "tr", "co"])
                    new(cls, wid + "." + x, k, ["lat"] if cls == "ed" else [{"b": "eng", "c": rng.choice(["fre", "fr", "en"])}.get(x, "eng")],
                        ["lv%d" % count][:rng.randint(0, 1)] + (["line"] if rng.random() < .2 else []))
        # languages are a matter of identifiers here
        lg = {}
        for o in ops:
            if o["op"] == "new" and o["lang"]:
                o["lang"] = lg.setdefault(o["id"], o["lang"])
        cands = [i + 1 for i, o in enumerate(objs) if o[0] in ("tg", "wk")]
        tainted = set()         # works whose texts were moved to another work are not merged again
        for _ in range(rng.randint(1, 5)):
            a, b = rng.choice(cands), rng.choice(cands)
            same = [c for c in cands if c != a and objs[c - 1][0] == objs[a - 1][0] and objs[c - 1][1] == objs[a - 1][1]]
            if same and rng.random() < .8:
                b = rng.choice(same)
            if a == b and objs[a - 1][0] == "tg":
                continue
            if b in tainted or any(objs[x - 1][2] == b for x in tainted):
                continue
            if objs[a - 1][0] == "wk" and same:
                tainted.add(b)
            ops.append({"op": "update", "w": a, "o": b})
            for i, o in rng.sample(list(enumerate(objs)), min(3, len(objs))):
                if o[0] == "wk":
                    ops.append({"op": "translations", "o": i + 1, "lang": rng.choice([[], ["eng"], ["fre"], ["fr"], ["en"], ["ger"]])})
                elif o[0] in ("ed", "tr", "co") and o[2]:
                    ops.append({"op": rng.choice(["editions", "translations"]), "o": i + 1, "lang": rng.choice([[], ["eng"], ["fre"], ["fr"]])})
        if rng.random() < .3 and not any(o["op"] == "update" for o in ops):
            continue
        tx = [i + 1 for i, o in enumerate(objs) if o[0] in ("ed", "tr", "co")]
        if tx:
            at = len([o for o in ops if o["op"] == "new"])
            q = rng.choice(tx)
            w = objs[q - 1][2]
            extra = [{"op": "label", "o": w}, {"op": "label", "o": objs[w - 1][2]}, {"op": "label", "o": q}, {"op": "names", "o": q}]
            ops[at:at] = extra
        k = sum(1 for o in ops if o["op"] == "new")
        yield {"id": "r%d" % n, "class": "history", "ops": ops, "every": False, "quiet": k - 1, "xml": rng.random() < .5}


execute = collops.execute
