"""C07: moving around in a local text."""
import docgen
import textops
from textops import execute

MC = [("MCText.tla", "MCText.cfg")]
MC_THOROUGH = [("MCText.tla", "MCTextBig.cfg")]
TRACE = ("TraceText.tla", "Trace.cfg")
REQUIRED_OPS = ["load", "nav", "goto", "move", "kids", "textnav", "source"]
ASSUMPTIONS = ["references are unique in the text; patterns are absolute; ranges are well formed",
               "a neighbour made of one unit may be written x or x-x"]


def scenarios(rng, tier, mc):
    by = {}
    for h in mc:
        by.setdefault(tuple(h["shape"]), []).append(h)
    for n, (shape, walks) in enumerate(sorted(by.items(), key=lambda z: z[0])):
        rng.shuffle(walks)
        for k in range(0, min(len(walks), 60 if tier == "quick" else 4000), 20):
            d = textops.small(shape, n, rng)
            d["id"] += "-%d" % k
            d["ops"] = [{"op": "textnav"}]
            for w in walks[k:k + 20]:
                d["ops"].append({"op": "nav", "ref": w["start"], "simple": "-" not in w["start"] and rng.random() < .3})
                if "-" in w["start"] and len(w["start"].split("-")[0]) != len(w["start"].split("-")[1]):
                    continue
                d["ops"].append({"op": "goto", "ref": w["start"]})
                d["ops"] += [{"op": "move", "mv": m} for m in w["moves"]]
            d["ops"].append({"op": "source"})
            yield d
    for n in range(1400 if tier == "quick" else 6000):
        d = textops.base(rng, n, "random walk", noise=.25)
        root, lv = docgen.units(d)
        ops = [{"op": "textnav"}]

        def some(same):
            if rng.random() < .5:
                x = ".".join(rng.choice(rng.choice(lv))[0])
            else:
                x = docgen.pick_range(rng, root, lv, rng.randint(1, len(lv)) if same else None)
            if rng.random() < .12:  # words of the units
                x = "-".join(y + rng.choice(["", "@w", "@w[2]"]) for y in x.split("-"))
            return x
        for _ in range(rng.randint(1, 3)):
            x = some(False)
            ops.append({"op": "nav", "ref": x, "simple": "-" not in x and rng.random() < .3, "via": rng.randint(0, 1)})
        if rng.random() < .9:
            ops.append({"op": "goto", "ref": some(True)})
            for _ in range(rng.randint(2, 9)):
                if rng.random() < .12:
                    ops.append({"op": "kids"})
                else:
                    ops.append({"op": "move", "mv": rng.choice(["next", "next", "prev", "prev", "first", "last"])})
                if rng.random() < .15:
                    ops.append({"op": "goto", "ref": some(True)})
        ops.append({"op": "source"})
        d["ops"] = ops
        yield d
