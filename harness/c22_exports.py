"""C22: exports of collections as DTS records and RDF, and records read back."""
import json
import collops
import dtsapi
from fw import S, O, I, L, B, obs
from c10_metadata import DC, DCT, CTS, DTS, RDF, RDFS, SKOS, XSD, TEXTS, CLASSES
MC = [("MCCollExport.tla", "MCCollExport.cfg")]
MC_THOROUGH = [("MCCollExport.tla", "MCCollExport.cfg"), ("MCCollExport.tla", "MCCollExportBig.cfg")]
TRACE = ("TraceCollExport.tla", "Trace.cfg")
REQUIRED_OPS = ["new", "add", "anon", "rem", "label", "type", "del", "parse", "dts", "rdf", "reread", "dump"]
TIMEOUT = 60
ASSUMPTIONS = ["keys of statements end with an XML name; identifiers are absolute IRIs; at most one description for the round trip",
               "typed values are those of XML Schema with canonical forms, or of unknown types", "rdflib's JSON-LD writer loses empty, false and zero values next to others: excused in the JSON-LD export only"]
HYD, CAP, EX = dtsapi.HYD, "http://purl.org/capitains/ns/1.0#", "http://example.org/ns#"
KEYS = [DC + "creator", DC + "title", DC + "subject", DCT + "title", DCT + "creator", DCT + "isPartOf", DCT + "date", SKOS + "note", SKOS + "prefLabel", RDFS + "comment", RDFS + "seeAlso", EX + "note", EX + "title",
        "http://example.org/other/note", "http://example.org/ns/sub#a-b", CTS + "description", CAP + "note", "http://xmlns.com/foaf/0.1/name", "https://schema.org/about", "http://purl.org/dc/terms_2/title"]
WORDS = TEXTS + ["de bello gallico", "urn:cts:x:y", "http://example.org/z", "true", "é\nb"]
LANGS = ["eng", "lat", "fr", "zh-hans"]
TYPES = [DTS + "collection", HYD + "Collection", HYD + "Resource", CTS + "work", CTS + "edition", EX + "Thing", SKOS + "Concept", CAP + "thing", DCT + "Text"]
CTSCLS = {"ic": "CtsTextInventoryCollection", "inv": "CtsTextInventoryMetadata", "tg": "CtsTextgroupMetadata", "wk": "CtsWorkMetadata", "ed": "CtsEditionMetadata", "tr": "CtsTranslationMetadata", "co": "CtsCommentaryMetadata",
          "coll": "Collection", "res": "ResourceCollection"}


def lit(s, lang=None, dt=None):
    return {"t": "lit", "s": s, "lang": [lang] if lang else [], "dt": [dt] if dt else []}


def uri(s):
    return {"t": "uri", "s": s, "lang": [], "dt": []}


def rvalue(rng):
    x = rng.random()
    if x < .35:
        return lit(rng.choice(WORDS))
    if x < .55:
        return lit(rng.choice(WORDS), rng.choice(LANGS))
    if x < .7:
        return uri(rng.choice(["urn:cts:a:b", "http://example.org/x?a=1&b=2", "https://w3.org/x#y", "urn:c:1", "urn:c:2"]))
    return rng.choice([lit(str(rng.choice([0, -5, 7, 2000])), None, XSD + "integer"), lit("1.5", None, XSD + "double"), lit(rng.choice(["true", "false"]), None, XSD + "boolean"), lit("2018-03-04", None, XSD + "date"),
                       lit("2018", None, XSD + "gYear"), lit("2018-03-04T10:00:00", None, XSD + "dateTime"), lit("a b", None, EX + "type"), lit("3.14", None, XSD + "decimal"), lit("http://example.org/q", None, XSD + "anyURI")])


# ------------------------------------------------------------------ scenarios
def tree(rng, d):
    return [{"name": rng.choice(["livre", "poème", "line", "§"]), "kids": tree(rng, d - 1) if d > 1 and rng.random() < .6 else []} for _ in range(rng.randint(1, 2))]


def summary(rng, i):
    return {"id": i, "type": rng.choice([HYD + "Collection", HYD + "Resource", CTS + "work", EX + "Thing"]), "title": rng.choice(["Lettres", "Ἰλιάς", "a \"b\" <c>"]), "total": str(rng.randint(0, 12)),
            "desc": [rng.choice(["Une collection", "é & x"])] if rng.random() < .4 else []}


def record(rng):
    r = summary(rng, rng.choice(["http://example.org/c?x=1", "urn:cts:latinLit:phi1", "urn:é"]))
    r.update(dc=[], ext=[], kids=[summary(rng, "urn:k:%d" % i) for i in range(rng.choice([0, 1, 2, 4]))], cite=tree(rng, 3) if rng.random() < .4 else [], depth=[str(rng.randint(1, 5))] if rng.random() < .3 else [])
    if r["kids"]:
        r["total"] = str(len(r["kids"]) + rng.choice([0, 0, 0, 9]))
    for _ in range(rng.choice([0, 1, 2, 4])):
        k = rng.choice([x for x in KEYS if not x.startswith((RDFS, CAP))])
        x = {"k": k, "v": rvalue(rng)}
        if x not in r["dc"] + r["ext"]:
            r["dc" if k.startswith(DCT) else "ext"].append(x)
    return r


def scenarios(rng, tier, mc):
    mc = rng.sample(mc, min(len(mc), 500 if tier == "quick" else 3025))
    for n, h in enumerate(mc):
        ops = [{"op": "new", "n": "urn:a", "cls": "coll", "par": [], "lang": [], "cite": []}, {"op": "new", "n": "urn:b", "cls": rng.choice(["coll", "res"]), "par": ["urn:a"], "lang": [], "cite": []}]
        yield {"id": "mc%d" % n, "class": "specification history", "binds": [], "ops": ops + [dict(o, k=o["k"]) if "k" in o else o for o in h] + [
            {"op": "dts", "n": "urn:a", "nsm": False}, {"op": "rdf", "n": "urn:a", "fmt": rng.choice(["rdf", "ld"])}, {"op": "dts", "n": "urn:a", "nsm": False}, {"op": "reread"}, {"op": "dts", "n": rng.choice(["urn:a", "urn:b"]), "nsm": False}, {"op": "reread"},
            {"op": "rdf", "n": "urn:b", "fmt": rng.choice(["rdf", "ld"])}]}
    for n in range(2200 if tier == "quick" else 9000):
        ops, objs = [], []          # objs: (id, cls, par)
        binds = [rng.choice([["dct", EX], ["hydra", HYD], ["ex", EX], ["dcterms2", DCT], ["dts", "http://example.org/other/"], ["skos2", SKOS], ["d", DTS], ["x", "http://example.org/"]]) for _ in range(rng.choice([0, 0, 1, 2]))]
        world = rng.choice(["cts", "generic", "dts"])
        if world == "dts":
            r = record(rng)
            ops.append({"op": "parse", "rec": r, "way": rng.choice("pqhf")})
            ids = [r["id"]] + [k["id"] for k in r["kids"]]
            objs = [(i, "dts") for i in ids]
        for m in range(rng.randint(4, 14)):
            x = rng.random()
            if not objs or (x < .3 and world != "dts"):
                live = [o for o in objs if o[1] not in ("ed", "tr", "co")]
                par = rng.choice(live) if live and rng.random() < .9 else None
                if world == "cts":
                    H = ["ic", "inv", "tg", "wk", "ed"]
                    cls = H[H.index(par[1]) + 1] if par else rng.choice(["ic", "inv", "tg", "wk"])
                    if cls == "ed":
                        cls = rng.choice(["ed", "ed", "tr", "co"])
                else:
                    cls = rng.choice(["coll", "coll", "res"])
                i = {"ic": "inv:%d", "inv": "urn:inv:%d"}.get(cls, "urn:cts:a:b.c%d" if world == "cts" else rng.choice(["urn:c:%d", "http://example.org/é/%d"])) % m
                ops.append({"op": "new", "n": i, "cls": cls, "par": [par[0]] if par else [], "lang": [rng.choice(["lat", "grc"])] if cls in ("tr", "co") else [],
                            "cite": rng.sample(["book", "poem", "line", "é"], rng.randint(1, 3)) if cls in ("ed", "tr", "co") and rng.random() < .7 else []})
                objs.append((i, cls))
                continue
            i, c = rng.choice(objs)
            if x < .5:
                k = rng.choice(KEYS)
                ops.append({"op": "add", "n": i, "k": k, "v": rvalue(rng)})
                if rng.random() < .3:
                    ops.append({"op": "add", "n": i, "k": k, "v": rvalue(rng)})
                if rng.random() < .12:
                    ops.append({"op": "anon", "n": i, "k": k, "v": {"t": "bn", "s": "_:nobody %d" % m, "lang": [], "dt": []}})
            elif x < .53 and c != "dts":
                ops.append({"op": "add", "n": i, "k": HYD + "description", "v": lit(rng.choice(["Une description", "é"]))})
            elif x < .58:
                ops.append({"op": "rem", "n": i, "k": rng.choice([o["k"] for o in ops if o["op"] == "add"] or [DC + "creator"])})
            elif x < .68:
                ops.append({"op": "label", "n": i, "t": rng.choice(WORDS), "lang": [rng.choice(LANGS)] if rng.random() < .8 else []})
            elif x < .72:
                ops.append({"op": "type", "n": i, "t": rng.choice(TYPES)})
            elif x < .75 and world != "dts":
                pars = {o["n"]: o["par"] for o in ops if o["op"] == "new"}
                kids = {p for q in pars.values() for p in q}
                if pars[i] and i not in kids:
                    ops.append({"op": "del", "n": i, "par": pars[i]})
                    objs = [o for o in objs if o[0] != i]
            elif x < .87:
                ops.append({"op": "dts", "n": i, "nsm": c != "ic" and rng.random() < .1})
            elif x < .93:
                ops.append({"op": "rdf", "n": i, "fmt": rng.choice(["rdf", "ld"])})
            elif ops[-1]["op"] == "dts":
                ops.append({"op": "reread"})
                kids = [o["n"] for o in ops if o["op"] == "new" and o["par"] == [ops[-2]["n"]]]
                if world == "dts":
                    kids = [j for j, _ in objs[1:]] if ops[-2]["n"] == objs[0][0] else []
                else:
                    kids = [j for j, _ in objs if j in kids]
                objs = [(j, "dts") for j in [ops[-2]["n"]] + kids]
                world = "dts"
        if objs:
            ops += [{"op": "dts", "n": objs[0][0], "nsm": False}, {"op": "reread"}, {"op": "dts", "n": objs[0][0], "nsm": False}]
        yield {"id": "r%d" % n, "class": world, "binds": binds, "ops": ops, "xml": rng.random() < .5}


# ------------------------------------------------------------------ execution
def enc(o, g=()):
    import rdflib
    if isinstance(o, rdflib.BNode):          # known by what is said of it
        return {"t": "bn", "s": S("_:%s" % ([str(c) for a, b, c in g if a == o and str(b) == EX + "tag"] or ["?"])[0]), "lang": [], "dt": []}
    if isinstance(o, rdflib.Literal):
        return {"t": "lit", "s": S(str(o)), "lang": [S(o.language)] if o.language is not None else [], "dt": [S(str(o.datatype))] if o.datatype is not None else []}
    return {"t": "uri", "s": S(str(o)), "lang": [], "dt": []}


def dump(g):
    return sorted(({"n": enc(a, g)["s"], "k": S(str(b)), "v": enc(c, g)} for a, b, c in g), key=repr)


def ldvalue(d):
    """ an expanded JSON-LD value as a term """
    import rdflib
    if "@id" in d:
        return enc(rdflib.URIRef(d["@id"]))
    v = d.get("@value")
    return enc(rdflib.Literal(v, lang=d.get("@language"), datatype=rdflib.URIRef(d["@type"]) if "@type" in d else None))


def one(d, k):
    return [S(str(x.get("@value", x))) for x in d.get(k, [])]


def only(q):
    return q[0] if len(q) == 1 else "!!" + repr(q)


def sumof(d):
    return {"id": S(d.get("@id")), "type": S(only(d.get("@type", []))), "title": only(one(d, HYD + "title")), "total": only(one(d, HYD + "totalItems")), "desc": one(d, HYD + "description")}


def cites(q):
    return [{"name": only(one(c, DTS + "citeType")), "kids": cites(c.get(DTS + "citeStructure", []))} for c in q]


def normal(j):
    """ a DTS record whatever its prefixes """
    from pyld import jsonld
    data = jsonld.expand(j)
    if len(data) != 1:
        return {"bad": len(data)}
    d = data[0]
    r = sumof(d)
    for n, k in (("dc", DTS + "dublincore"), ("ext", DTS + "extensions")):
        r[n] = sorted(({"k": S(p), "v": ldvalue(v)} for part in d.get(k, []) for p, vs in part.items() for v in vs), key=repr)
    r["kids"] = [dict(sumof(m)) for m in d.get(HYD + "member", [])]
    r["cite"] = cites(d.get(DTS + "citeStructure", []))
    r["depth"] = one(d, DTS + "citeDepth")
    r["other"] = sorted(S(k) for k in d if k not in ("@id", "@type", HYD + "title", HYD + "totalItems", HYD + "description", HYD + "member", DTS + "dublincore", DTS + "extensions", DTS + "citeStructure", DTS + "citeDepth"))
    return r


def write(rec, way):
    """ the DTS document of a record """
    ld = dtsapi.Ld(way)

    def val(v):
        if v["t"] == "uri":
            return {"@id": v["s"]}
        if v["dt"] and v["dt"][0] in (XSD + "integer", XSD + "boolean", XSD + "double"):
            return json.loads(v["s"])
        if v["dt"]:
            return {"@value": v["s"], "@type": v["dt"][0]}
        return {"@value": v["s"], "@language": v["lang"][0]} if v["lang"] else v["s"]

    def head(m):
        return [("@id", m["id"]), ("@type", ld.k(m["type"])), (HYD + "title", m["title"]), (HYD + "totalItems", int(m["total"]))] + [(HYD + "description", x) for x in m["desc"]]
    cs = lambda q: [ld.obj([(DTS + "citeType", c["name"])] + ([(DTS + "citeStructure", cs(c["kids"]))] if c["kids"] else []), False) for c in q]
    ps = head(rec)
    for n, k in (("dc", DTS + "dublincore"), ("ext", DTS + "extensions")):
        d = {}
        for x in rec[n]:
            d.setdefault(ld.k(x["k"]), []).append(val(x["v"]))
        if d:
            ps.append((k, {p: q[0] if len(q) == 1 and way != "q" else q for p, q in d.items()}))
    if rec["kids"]:
        ps.append((HYD + "member", [ld.obj(head(m), False) for m in rec["kids"]]))
    if rec["cite"]:
        ps.append((DTS + "citeStructure", cs(rec["cite"])))
    if rec["depth"]:
        ps.append((DTS + "citeDepth", int(rec["depth"][0])))
    return ld.obj(ps)


def execute(scn):
    import rdflib
    from rdflib.namespace import NamespaceManager
    from MyCapytain.common.constants import set_graph, bind_graph, get_graph, Mimetypes
    from MyCapytain.resources.collections.dts import DtsCollection
    from MyCapytain.common.reference import Citation
    C = collops.classes(scn.get("xml", False))

    def fresh():
        set_graph(bind_graph())
        for p, ns in scn["binds"]:
            get_graph().namespace_manager.bind(p, rdflib.Namespace(ns))
    fresh()
    o, ev, last = {}, [], [None]

    def term(v):
        return rdflib.URIRef(v["s"]) if v["t"] == "uri" else rdflib.Literal(v["s"], lang=v["lang"][0] if v["lang"] else None, datatype=rdflib.URIRef(v["dt"][0]) if v["dt"] else None)

    def new(op):
        par = o[op["par"][0]] if op["par"] else None
        kw = {"lang": op["lang"][0]} if op["lang"] else {}
        if op["cls"] in ("coll", "res", "ic") or par is None:
            x = C[op["cls"]](op["n"], **kw)
            if par is not None:
                x.parent = par
        else:
            x = C[op["cls"]](op["n"], parent=par, **kw)
        if op["cite"]:
            t = None
            for n, name in reversed(list(enumerate(op["cite"]))):
                t = Citation(name=name, refsDecl="/tei:TEI/tei:text/tei:body" + "".join("/tei:div[@n='$%d']" % (m + 1) for m in range(n + 1)), child=t)
            x.citation = t
        o[op["n"]] = x

    def read(j):
        fresh()
        r = DtsCollection.parse(j)
        o.clear()
        for x in [r] + list(r.children.values()):
            o[x.id] = x
    res = lambda f: (lambda z: "ok" if z["k"] == "v" else "raised " + z["v"][0])(obs(f, lambda v: 0))
    for op in scn["ops"]:
        e = {a: b for a, b in op.items() if a not in ("cls", "way", "nsm")}
        k, n = op["op"], op.get("n")
        if n is not None and k != "new" and n not in o:
            continue
        if k == "new":
            c = CLASSES[CTSCLS[op["cls"]]]
            e.update(type=c["type"]["ns"] + c["type"]["name"], model=c["model"])
            q = []
            for name in reversed(op["cite"]):
                q = [{"name": name, "kids": q}]
            e["cite"] = q
            e["res"] = res(lambda: new(op))
        elif k == "add":
            e["res"] = res(lambda: o[n].metadata.add(rdflib.URIRef(op["k"]), term(op["v"])))
        elif k == "anon":
            def anon():
                b = rdflib.BNode()
                o[n].metadata.add(rdflib.URIRef(op["k"]), b)
                o[n].graph.add((b, rdflib.URIRef(EX + "tag"), rdflib.Literal(op["v"]["s"][2:])))
            e["res"] = res(anon)
        elif k == "rem":
            e["res"] = res(lambda: o[n].metadata.remove(rdflib.URIRef(op["k"])))
        elif k == "label":
            e["res"] = res(lambda: o[n].set_label(op["t"], op["lang"][0] if op["lang"] else None))
        elif k == "type":
            e["res"] = res(lambda: setattr(o[n], "type", op["t"]))
        elif k == "del":
            e["res"] = res(lambda: o[op["par"][0]].__delitem__(n))
            o.pop(n)
        elif k == "parse":
            e["res"] = res(lambda: read(write(op["rec"], op["way"])))
        elif k == "dts":
            x = o[n]
            # an inventory collection of one inventory is exported as this inventory
            if hasattr(C["ic"], "members") and isinstance(x, C["ic"]) and len(x.members) == 1:
                e["n"] = S(x.members[0].id)
            kw = {}
            if op.get("nsm"):
                g = rdflib.Graph()
                kw["namespace_manager"] = NamespaceManager(g)
            raw = obs(lambda: x.export(Mimetypes.JSON.DTS.Std, **kw), lambda v: v)
            e["json"] = False
            e["obs"] = {"k": "x", "v": raw["v"]}
            if raw["k"] == "v" and isinstance(raw["v"], dict):
                try:
                    last[0] = json.loads(json.dumps(raw["v"], allow_nan=False))
                    e["json"] = True
                except (TypeError, ValueError):
                    last[0] = None
                if last[0] is not None:
                    e["obs"] = obs(lambda: normal(last[0]), lambda v: v)
                if e["obs"]["k"] == "v" and "bad" in e["obs"]["v"]:
                    e["obs"] = {"k": "x", "v": ["not a record"]}
            else:
                last[0] = None
        elif k == "rdf":
            fmt = {"rdf": Mimetypes.XML.RDF, "ld": Mimetypes.JSON.LD}[op["fmt"]]

            def back():
                g = rdflib.Graph()
                g.parse(data=o[n].export(fmt), format={"rdf": "xml", "ld": "json-ld"}[op["fmt"]])
                return dump(g)
            e["obs"] = obs(back, lambda v: v)
        elif k == "reread":
            if last[0] is None:
                continue
            e["res"] = res(lambda: read(last[0]))
        if k == "reread":
            last[0] = None
        ev.append(e)
        ev.append({"op": "dump", "G": dump(get_graph())})
    return {"id": scn["id"], "ev": ev}
