"""C24: every object exports to the formats it announces, and exporting changes nothing."""
import hashlib
import json
import docgen
import textops
import c12_inventory as inventory
import collops
from fw import S, O, obs
from lxml import etree
MC = [("MCExports.tla", "MCExports.cfg")]
MC_THOROUGH = [("MCExports.tla", "MCExportsBig.cfg")]
TRACE = ("TraceExports.tla", "Trace.cfg")
REQUIRED_OPS = ["class", "caps", "run", "obj", "ask", "change"]
TIMEOUT = 40
ASSUMPTIONS = ["exports are compared as documents: attributes and namespace declarations in any order, statements in any order",
               "remote texts, passages and DTS documents are covered by C17 and C23"]
FMTS = ["json", "ld", "dts", "rdf", "cts", "cap", "etree", "tei", "xml", "dict", "text"]


def wrapped(v):
    """ a fragment, with the prefixes of the library """
    from MyCapytain.common.constants import get_graph
    ns = {p: str(u) for p, u in get_graph().namespaces() if p}
    ns.setdefault("tei", "http://www.tei-c.org/ns/1.0")
    return "<r %s>%s</r>" % (" ".join('xmlns:%s="%s"' % (p, docgen.esc(u)) for p, u in ns.items() if p not in ("xml", "xmlns")), v)


# ------------------------------------------------------------------ scenarios
def objects(rng):
    kinds = rng.sample(["cts", "coll", "cit", "dts", "text", "text"], rng.randint(1, 3))
    out = []
    for k in sorted(set(kinds)):
        if k == "cts":
            out.append({"k": k, "recs": inventory.recs(rng), "xml": rng.random() < .5})
        elif k == "coll":
            out.append({"k": k, "ids": ["http://example.org/c", "urn:c:1"][:rng.randint(1, 2)], "labels": [[rng.choice(["Lettres", "a <b>", "é"]), rng.choice(["fre", "lat"])] for _ in range(rng.randint(0, 2))]})
        elif k == "cit":
            out.append({"k": k, "names": rng.sample(["book", "poem", "line", "§"], rng.randint(1, 3))})
        elif k == "dts":
            out.append({"k": k, "tree": [{"name": rng.choice(["book", "line", "x"]), "kids": [{"name": "l", "kids": []}] * rng.randint(0, 2)} for _ in range(rng.randint(1, 2))]})
        else:
            d = textops.base(rng, 0, "text", limit=30)
            root, lv = docgen.units(d)
            d["k"] = k
            d["refs"] = [".".join(rng.choice(rng.choice(lv))[0]) for _ in range(2)] + [docgen.pick_range(rng, root, lv)]
            out.append(d)
    return out


def scenarios(rng, tier, mc):
    for n, cl in enumerate(rng.sample(mc, min(len(mc), 1500 if tier == "quick" else 20000))):
        yield {"id": "mc%d" % n, "class": "hierarchy of the specification", "cl": cl}
    for n in range(500 if tier == "quick" else 5000):      # larger hierarchies, several bases
        size = rng.randint(2, 7)
        cl, linear = [{"own": [[]], "dflt": [""], "impl": True, "bases": []}], {1: [1]}
        for c in range(2, size + 1):
            for _ in range(20):
                bases = rng.sample(range(1, c), min(c - 1, rng.choice([1, 1, 1, 2, 2, 3])))
                m = c3([linear[b] for b in bases] + [bases])
                if m is not None:
                    break
            else:
                bases, m = [c - 1], linear[c - 1]
            linear[c] = [c] + m
            fm = ["a", "b", "c"]
            cl.append({"own": [[rng.choice(fm) for _ in range(rng.choice([0, 1, 1, 2, 3]))]] if rng.random() < .6 else [], "dflt": [rng.choice(fm + [""])] if rng.random() < .4 else [],
                       "impl": rng.random() < .6, "bases": bases})
        for c, x in enumerate(cl):
            x["mro"] = linear[c + 1]
        yield {"id": "h%d" % n, "class": "random hierarchy", "cl": cl}
    for n in range(500 if tier == "quick" else 6000):
        asks = [{"op": "ask", "n": rng.random(), "f": [] if rng.random() < .12 else [rng.choice(FMTS)], "opt": rng.choice(["", "", "", "x"]), "likely": rng.random() < .8} for _ in range(rng.randint(10, 25))]
        for _ in range(rng.choice([0, 0, 1, 2])):
            asks.insert(rng.randint(0, len(asks)), {"op": "change", "n": rng.random(), "t": rng.choice(["v1", "é", "a & b"])})
        yield {"id": "r%d" % n, "class": "objects", "objs": objects(rng), "asks": asks}


def c3(seqs):
    seqs, out = [list(s) for s in seqs], []
    while any(seqs):
        seqs = [s for s in seqs if s]
        head = next((s[0] for s in seqs if not any(s[0] in t[1:] for t in seqs)), None)
        if head is None:
            return None
        out.append(head)
        seqs = [[x for x in s if x != head] for s in seqs]
    return out


# ------------------------------------------------------------------ what exports are
def tree(e):
    return [str(e.tag) if isinstance(e.tag, str) else e.tag.__name__, sorted((str(k), str(v)) for k, v in e.attrib.items()), (e.text or "") if len(e) == 0 or (e.text or "").strip() else "", [[tree(c), (c.tail or "").strip() and c.tail] for c in e.iterchildren()]]


def triples(s, fmt):
    import rdflib
    g = rdflib.Graph()
    g.parse(data=s, format=fmt)
    return sorted([x.n3() for x in t] for t in g)


def plain(x):
    if isinstance(x, dict):
        return sorted([str(k), plain(v)] for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return sorted((plain(v) for v in x), key=json.dumps)
    return x


def nested(x):
    return [[k, nested(v)] for k, v in x.items()] if isinstance(x, dict) else x


def digest(x):
    return hashlib.sha1(json.dumps(x).encode()).hexdigest()[:12]


def look(fmt, v):
    """ the kind of export it is, and what it says """
    if isinstance(v, etree._Element):
        return "etree", digest(tree(etree.fromstring(etree.tostring(v, with_tail=False))))
    if isinstance(v, str):
        if fmt == "ld":
            json.loads(v)
            return "ld", digest(triples(v, "json-ld"))
        if fmt == "rdf":
            return "rdf", digest(triples(v, "xml"))
        if fmt == "text":
            return "text", digest(v)
        try:
            x = etree.fromstring(v)
        except etree.XMLSyntaxError:
            x = etree.fromstring(wrapped(v))
            x[:] = sorted(x, key=lambda e: json.dumps(tree(e)))
        return "xml", digest(tree(x))
    if isinstance(v, (dict, list)):
        json.dumps(v)
        if isinstance(v, dict) and "@context" in v:     # prefixes may change
            from pyld import jsonld
            v = jsonld.expand(json.loads(json.dumps(v)))
        return ("dict" if fmt == "dict" else "json"), digest(nested(v) if fmt == "dict" else plain(v))
    return "bad", type(v).__name__


# ------------------------------------------------------------------ execution
def execute(scn):
    return synthetic(scn) if "cl" in scn else real(scn)


def synthetic(scn):
    from MyCapytain.common.base import Exportable
    cl, made = scn["cl"], [Exportable]
    for c, x in list(enumerate(cl))[1:]:
        at = {}
        if x["own"]:
            at["EXPORT_TO"] = list(x["own"][0])
        if x["dflt"]:
            at["DEFAULT_EXPORT"] = x["dflt"][0] or None
        if x["impl"]:
            at["__export__"] = (lambda n: lambda self, output=None, **kw: {"by": n, "fmt": S(output), "kw": sorted(kw)})(c + 1)
        bases = x.get("bases")
        if bases is None:
            m = x["mro"][1:]
            bases = [b for b in m if not any(b in cl[d - 1]["mro"][1:] for d in m if d != b)]
        made.append(type("C%d" % (c + 1), tuple(made[b - 1] for b in bases), at))
        assert [made.index(k) + 1 for k in made[-1].__mro__[:-1]] == x["mro"], (scn, made[-1].__mro__)
    ev = [{"op": "class"}]
    for c in range(len(cl)):
        if c < len(cl) - 3:
            continue
        o = made[c]()
        ev.append({"op": "caps", "c": c + 1, "res": sorted(set(S(f) for f in o.export_capacities))})
        for f in ([], ["a"], ["b"], ["c"]):
            kw = {"deep": 1, "x": None} if (c + len(f)) % 2 else {}
            ev.append({"op": "run", "c": c + 1, "f": f, "kw": sorted(kw), "obs": obs(lambda: o.export(*f, **kw), lambda r: {"by": 1, "fmt": "", "kw": []} if r is None else r)})
    return {"id": scn["id"], "cl": [{k: x[k] for k in ("own", "dflt", "impl", "mro")} for x in cl], "ev": ev}


def real(scn):
    from MyCapytain.common.constants import set_graph, get_graph, bind_graph, Mimetypes as M
    from MyCapytain.common.reference import Citation
    from rdflib import DC, BNode
    set_graph(bind_graph())
    names = {"json": M.JSON.Std, "ld": M.JSON.LD, "dts": M.JSON.DTS.Std, "rdf": M.XML.RDF, "cts": M.XML.CTS, "cap": M.XML.CapiTainS.CTS, "etree": M.PYTHON.ETREE, "tei": M.XML.TEI, "xml": M.XML.Std,
             "dict": M.PYTHON.NestedDict, "text": M.PLAINTEXT}
    back = {v: k for k, v in names.items()}
    objs, texts = [], []
    for d in scn["objs"]:
        if d["k"] == "cts":
            got = inventory.build(d["recs"], collops.classes(d["xml"]))
            objs += [("cts", o) for o in got.values()] + [("meta", o.metadata) for o in list(got.values())[-2:]]
        elif d["k"] == "coll":
            C, par = collops.classes(False), None
            for i in d["ids"]:
                o = C["coll"](i)
                if par is not None:
                    o.parent = par
                for t, l in d["labels"]:
                    o.set_label(t, l)
                par = o
                objs += [("coll", o), ("meta", o.metadata)]
        elif d["k"] == "cit":
            c, pats = None, ["#xpath(/tei:TEI//tei:l[@n='$1'])", "#xpath(/tei:TEI//tei:a[@n='$1']/tei:l[@n='$2'])", "#xpath(/tei:TEI//tei:a[@n='$1']/tei:b[@n='$2']/tei:l[@n='$3'])"]
            for i in reversed(range(len(d["names"]))):
                c = Citation(name=d["names"][i], refsDecl=pats[i], child=c)
                objs.append(("cit", c))
        elif d["k"] == "dts":
            from MyCapytain.common.reference import DtsCitation, DtsCitationSet
            top = DtsCitationSet()
            for f in d["tree"]:
                c = DtsCitation(name=f["name"], root=top)
                c.children = [DtsCitation(name=g["name"], root=top) for g in f["kids"]]
                objs.append(("dts", c))
                top.children = list(top.children) + [c]
            objs.append(("dts", top))
        else:
            t = textops.load(d)
            from MyCapytain.common.reference import CtsReference
            texts.append(t)
            objs.append(("text", t))
            for x in d["refs"]:
                objs.append(("text", t.getTextualNode(CtsReference(x))))
            objs.append(("text", t.getTextualNode(CtsReference(d["refs"][0]), simple=True)))

    def world():
        g = get_graph()
        return digest([sorted([x.n3() for x in q] for q in g if not isinstance(q[0], BNode)), [tree(t.resource) for t in texts], [[c.name, c.refsDecl, c.xpath, c.scope] for k, c in objs if k == "cit"]])

    def shown(o, f, kw):
        got = {}

        def fn():
            v = o.export(names[f[0]], **kw) if f else o.export(**kw)
            fm = f[0] if f else back.get(o.DEFAULT_EXPORT, "?")
            s, h = look(fm, v)
            return {"shape": s, "val": h}
        return obs(fn, lambda r: r)
    ev = []
    for n, (k, o) in enumerate(objs):
        ev.append({"op": "obj", "n": n, "kind": k, "caps": sorted({back.get(f, S(f)) for f in o.export_capacities}), "dflt": "" if o.DEFAULT_EXPORT is None else back.get(o.DEFAULT_EXPORT, S(o.DEFAULT_EXPORT)),
                   "world": world()})
    for a in scn["asks"]:
        n = int(a["n"] * len(objs))
        k, o = objs[n]
        if a["op"] == "change":
            if k in ("cts", "coll"):
                o.metadata.add(DC.description, a["t"])
            elif k == "meta":
                o.add(DC.description, a["t"])
            else:
                continue
            ev.append({"op": "change", "world": world()})
            continue
        f = a["f"]
        if f and a["likely"]:
            caps = sorted({back.get(x, S(x)) for x in o.export_capacities} & set(FMTS))
            f = [caps[FMTS.index(f[0]) % len(caps)]]
        fm = f[0] if f else back.get(o.DEFAULT_EXPORT, "")
        opt = a["opt"] if (k == "text" and fm in ("text", "dict")) or (k == "meta" and fm in ("json", "ld", "rdf", "cap")) else ""
        kw = {} if not opt else {"exclude": ["tei:note"]} if k == "text" else {"exclude": [DC.description]}
        ev.append({"op": "ask", "n": n, "f": f, "opt": opt, "obs": shown(o, f, kw), "world": world()})
    return {"id": scn["id"], "cl": [], "ev": ev}
