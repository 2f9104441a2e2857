"""C06: passages extracted from a local text."""
import random
import docgen
import textops
from textops import execute

MC = [("MCText.tla", "MCTextStart.cfg")]
MC_THOROUGH = [("MCText.tla", "MCTextBig.cfg")]
TRACE = ("TraceText.tla", "Trace.cfg")
REQUIRED_OPS = ["load", "passage", "source"]
ASSUMPTIONS = ["references are unique in the text; patterns are absolute; a range starts before it ends and neither end contains the other",
               "uncited text standing directly between units at the limits of a range is unconstrained (kept or dropped)"]


def scenarios(rng, tier, mc):
    for n, (shape, refs) in enumerate(textops.starts(mc)):
        d = textops.small(shape, n, rng)
        d["ops"] = [{"op": "passage", "ref": x, "simple": "-" not in x and rng.random() < .3} for x in refs] + [{"op": "source"}]
        yield d
    for n in range(1500 if tier == "quick" else 6000):
        d = textops.base(rng, n, "random text")
        root, lv = docgen.units(d)
        ops = []
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            if r < .62:
                x = docgen.pick_range(rng, root, lv)
            elif r < .94:
                x = ".".join(rng.choice(rng.choice(lv))[0])
            else:
                x = rng.choice(["zz", ".".join(lv[0][0][0]) + ".zz", "1.1.1.1.1.1"])
            if rng.random() < .06 and "-" not in x:
                x += "@w[1]"
            op = {"op": "passage", "ref": x, "str": rng.random() < .2}
            q = rng.random()
            if "-" not in x and q < .25:
                op["simple"] = True
            elif q < .45:
                op.update(via="passage", host=".".join(rng.choice(rng.choice(lv))[0]), hsimple=rng.random() < .5)
            elif "-" not in x and "@" not in x and q < .5:
                op.update(via="list")
            ops.append(op)
            if rng.random() < .2:
                ops.append({"op": "source"})
        ops.append({"op": "source"})
        d["ops"] = ops
        yield d
