"""C04: multi-level citation schemes - structure, matching, TEI and CTS export/parse round trips."""
import citgen as g
from fw import S, O, I, B

MC = [("MCCitation.tla", "MCCitation.cfg")]
TRACE = ("TraceCitation.tla", "Trace.cfg")
REQUIRED_OPS = ["chain", "roundtrip"]
ASSUMPTIONS = ["level i of a scheme has i placeholders; in TEI export the patterns use single quotes (see known finding)"]
BUILDS = ["nested", "setter-top", "setter-bottom", "tei", "cts"]


def scenarios(rng, tier, mc):
    yield {"id": "kf-tei-quotes", "key": "tei-double-quotes", "class": "known",
           "ch": [{"name": ["line"], "pat": [{"sep": "/", "node": "tei:l", "preds": [{"pre": "", "attr": "n", "q": "\"", "post": ""}]}]}],
           "build": "nested", "rt": ["tei"], "sq": False}
    pool = mc
    for n in range(9000 if tier == "quick" else 30000):
        ch, p = [], []
        depth = rng.randint(1, 5)
        for d in range(depth):
            if d == 0:
                p = g.front(rng, rng.randint(0, 2)) + [g.step(rng, True)]
            else:
                p = p + (g.front(rng, 1) if rng.random() < .3 else []) + [g.step(rng, True)]
            ch.append({"name": [rng.choice(g.NAMES)] if rng.random() < .93 else [], "pat": p})
        if n < len(pool) // 8 and rng.random() < .5:
            ch[0]["pat"] = pool[rng.randrange(len(pool))]
            ch = ch[:1]
        rt = [rng.choice(["tei", "cts"]) for _ in range(rng.randint(1, 3))]
        build = rng.choice(BUILDS)
        if build == "tei" or "tei" in rt:   # single-quoted patterns only
            for lv in ch:
                for st in lv["pat"]:
                    for pr in st["preds"]:
                        pr["q"] = pr["q"] and "'"
                        pr["pre"] = pr["pre"].replace("\"", "'")
                        pr["post"] = pr["post"].replace("\"", "'")
        if build in ("tei", "cts"):
            for lv in ch:
                if not lv["name"]:
                    lv["name"] = [""]
        yield {"id": "r%d" % n, "class": build, "ch": ch, "build": build, "rt": rt}


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def parse_tei(xml):
    from MyCapytain.common.reference import Citation
    from MyCapytain.common.utils.xml import xmlparser
    doc = xmlparser('<TEI xmlns="http://www.tei-c.org/ns/1.0" xmlns:tei="http://www.tei-c.org/ns/1.0"><refsDecl n="CTS">%s</refsDecl></TEI>' % xml)
    # the element or a list whose first element it is
    return Citation.ingest([doc, doc[0]] if len(xml) % 2 else doc)


def parse_cts(xml):
    from MyCapytain.resources.collections.cts import XmlCtsCitation
    from MyCapytain.common.utils.xml import xmlparser
    return XmlCtsCitation.ingest(xmlparser('<citationMapping xmlns="http://chs.harvard.edu/xmlns/cts">%s</citationMapping>' % xml))


def build(ch, how):
    from MyCapytain.common.reference import Citation
    if how == "tei":
        return parse_tei("".join('<cRefPattern n="%s" matchPattern="x" replacementPattern="#xpath(%s)"/>' % (esc(lv["name"][0]), esc(g.text(lv["pat"]))) for lv in reversed(ch)))
    if how == "cts":
        out = ""
        for lv in reversed(ch):
            out = '<citation label="%s" scope="%s" xpath="%s">%s</citation>' % (
                esc(lv["name"][0]), esc(g.text(lv["pat"][:-1], "anon")), esc(g.text(lv["pat"][-1:], "anon")), out)
        return parse_cts(out)
    mk = [Citation(name=lv["name"][0] if lv["name"] else None, refsDecl=g.text(lv["pat"])) for lv in ch]
    if how == "nested":
        c = None
        for lv in reversed(ch):
            c = Citation(name=lv["name"][0] if lv["name"] else None, refsDecl=g.text(lv["pat"]), child=c)
        return c
    if how == "setter-top":
        for a, b in zip(mk, mk[1:]):
            a.child = b
    else:
        for a, b in reversed(list(zip(mk, mk[1:]))):
            a.child = b
    return mk[0]


def levels(c):
    out = []
    while c is not None and len(out) < 12:
        out.append(c)
        c = c.child
    return out


def matched(pos, x, r):
    try:
        return pos(x.match(r))
    except (KeyError, IndexError):
        return 0


def observe(c):
    from MyCapytain.common.reference import CtsReference
    lv = levels(c)
    pos = lambda x: next((i + 1 for i, y in enumerate(lv) if y is x), -1)
    out = []
    for x in lv:
        idx = []
        for k in list(range(0, 7)) + [-1, -2]:
            try:
                idx.append({"k": k, "r": pos(x[k])})
            except (KeyError, IndexError):
                idx.append({"k": k, "r": 0})
        match = []
        for d in range(1, 8):
            ref = ".".join("1" * d)
            got = [matched(pos, x, r) for r in (ref, CtsReference(ref))]
            match.append(got[0] if got[0] == got[1] else -2)
        # ranges: both ends as deep, or one deeper than the other
        ranges = [[a, b, matched(pos, x, CtsReference(".".join("1" * a) + "-" + ".".join("2" * b)))] for a in range(1, 5) for b in range(1, 5)]
        out.append({"names": [O(y.name) for y in x], "len": I(len(x)), "depth": I(x.depth), "root": pos(x.root), "isroot": B(x.is_root()),
                    "empty": B(x.is_empty()), "idx": idx, "match": match, "ranges": ranges, "child": pos(x.child) if x.child is not None else 0,
                    "refsDecl": S(x.refsDecl)})
    return out


def execute(scn):
    from MyCapytain.common.constants import Mimetypes
    c = build(scn["ch"], scn["build"])
    ev = [{"op": "chain", "ch": scn["ch"], "obs": observe(c)}]
    for how in scn["rt"]:
        if how == "cts":
            t = c.export(Mimetypes.XML.CTS)
            try:
                d = parse_cts(t)
            except Exception:
                d = None
            again = d is not None and d.export(Mimetypes.XML.CTS) == t
        else:
            t = "".join(x.export(Mimetypes.XML.TEI) for x in reversed(levels(c)))
            try:
                d = parse_tei(t)
            except Exception:
                d = None
            again = d is not None and "".join(x.export(Mimetypes.XML.TEI) for x in reversed(levels(d))) == t
        lv = levels(d) if d is not None else []
        pats = [S(x.refsDecl) for x in lv]
        if how == "tei":
            pats = [p.replace("\"", "'") for p in pats]
        ev.append({"op": "roundtrip", "how": how, "names": [O(x.name) for x in lv], "pats": pats,
                   "again": again, "rootok": all(x.root is lv[0] for x in lv)})
    return {"id": scn["id"], "ev": ev}
