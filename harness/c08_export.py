"""C08: textual exports of local texts and passages."""
import docgen
import textops
from textops import execute

MC = [("MCText.tla", "MCTextStart.cfg")]
MC_THOROUGH = [("MCText.tla", "MCTextBig.cfg")]
TRACE = ("TraceText.tla", "Trace.cfg")
REQUIRED_OPS = ["load", "export", "source"]
ASSUMPTIONS = ["references are unique in the text; ranges are well formed", "plain text: the text nodes in order, joined, runs of spaces reduced to one"]


def scenarios(rng, tier, mc):
    for n, (shape, refs) in enumerate(textops.starts(mc)):
        d = textops.small(shape, n, rng)
        d["ops"] = [{"op": "export", "ref": [x], "simple": "-" not in x and rng.random() < .3,
                     "excl": rng.choice([[], ["tei:note"], ["tei:note", "tei:hi"]]), "kw": False, "glue": None} for x in rng.sample(refs, min(8, len(refs)))]
        d["ops"].append({"op": "source"})
        yield d
    for n in range(1300 if tier == "quick" else 5000):
        d = textops.base(rng, n, "random text", limit=rng.choice([40, 60, 80]))
        root, lv = docgen.units(d)
        ops = []
        for _ in range(rng.randint(1, 4)):
            q = rng.random()
            if q < .15:
                x = []
            elif q < .55:
                x = [".".join(rng.choice(rng.choice(lv))[0])]
            else:
                x = [docgen.pick_range(rng, root, lv)]
            ops.append({"op": "export", "ref": x, "simple": bool(x) and "-" not in x[0] and rng.random() < .35,
                        "excl": rng.choice([[], [], ["tei:note"], ["tei:note", "tei:hi"], ["tei:name"], ["tei:w", "tei:note"]]),
                        "kw": rng.random() < .5, "glue": rng.choice([None, None, "", " ", "|"])})
        ops.append({"op": "source"})
        d["ops"] = ops
        yield d
