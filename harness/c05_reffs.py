"""C05: references available in a local text, at any level, under any reference."""
import docgen
import textops
from textops import execute

MC = [("MCText.tla", "MCTextStart.cfg")]
MC_THOROUGH = [("MCText.tla", "MCTextBig.cfg")]
TRACE = ("TraceText.tla", "Trace.cfg")
REQUIRED_OPS = ["load", "reffs", "allreffs", "source"]
ASSUMPTIONS = ["references are unique in the text; patterns are absolute; ranges are well formed",
               "levels of a range asked with level=None, and level 0 of a range over one unit, are unconstrained"]


def scenarios(rng, tier, mc):
    for n, (shape, refs) in enumerate(textops.starts(mc)):
        d = textops.small(shape, n, rng)
        d["ops"] = [{"op": "allreffs"}]
        for x in refs:
            for lv in (1, 2, 3):
                d["ops"].append({"op": "reffs", "ref": [x], "lv": lv, "via": rng.choice(["text", "valid", "passage"])})
            if "-" in x:
                d["ops"].append({"op": "reffs", "ref": [x], "lv": 0, "via": "text"})
        d["ops"].append({"op": "source"})
        yield d
    for n in range(1800 if tier == "quick" else 8000):
        d = textops.base(rng, n, "random text")
        root, lv = docgen.units(d)
        depth = len(lv)
        ops = [{"op": "allreffs"}] if rng.random() < .5 else []
        for _ in range(rng.randint(3, 9)):
            q = rng.random()
            if q < .2:
                ops.append({"op": "reffs", "ref": [], "lv": rng.choice([1, 1, 2, 3, 4, 5, None]), "via": rng.choice(["text", "text", "valid"]), "str": rng.random() < .5, "dbg": rng.random() < .3})
                continue
            if q < .5:
                x = ".".join(rng.choice(rng.choice(lv[:-1] or lv))[0])
            elif q < .6:
                x = ".".join(rng.choice(rng.choice(lv))[0])
            elif q < .93:
                x = docgen.pick_range(rng, root, lv)
            else:
                x = rng.choice(["zz", ".".join(lv[0][0][0]) + ".zz", "zz-" + ".".join(lv[0][-1][0])])
            rge = "-" in x
            lvs = [1, 1, 1, 2, 3, 0, depth, depth + 1]
            if rge and x.split("-")[0] == x.split("-")[1]:
                lvs = [1, 1, 2, 3, depth]
            op = {"op": "reffs", "ref": [x], "lv": rng.choice(lvs), "str": rng.random() < .25}
            via = rng.choice(["text", "text", "valid", "passage", "other", "simple", "simple2"])
            if via == "simple" and (rge or not known(lv, x)):
                via = "text"
            if via == "passage" and not known_range(lv, x):
                via = "text"
            if via in ("other", "simple2"):
                op["host"] = ".".join(rng.choice(rng.choice(lv))[0])
            if via == "valid" and not rge and rng.random() < .2:
                op["lv"] = None
            if via in ("simple", "simple2") and op["lv"] == 0:
                op["lv"] = 1
            op["via"] = via
            ops.append(op)
            if op["lv"] is None and rge:
                op["lv"] = 1
        ops.append({"op": "source"})
        d["ops"] = ops
        yield d


def known(lv, x):
    p = tuple(x.split("."))
    return len(p) <= len(lv) and any(r == p for r, _ in lv[len(p) - 1])


def known_range(lv, x):
    return all(known(lv, y) for y in x.split("-"))
