"""C10: the metadata store - statements, languages, labels, selection and exports."""
from fw import S, O, I, L, B, obs

MC = [("MCMeta.tla", "MCMeta.cfg")]
MC_THOROUGH = [("MCMeta.tla", "MCMeta.cfg"), ("MCMeta.tla", "MCMetaBig.cfg")]
TRACE = ("TraceMeta.tla", "Trace.cfg")
REQUIRED_OPS = ["add", "set", "remove", "unlink", "dump", "get", "single", "export", "coll", "label", "prop", "link", "getprop", "getor"]
ASSUMPTIONS = ["texts of values have capitalised words (the JSON export title-cases them: known finding); languages are lower case tags",
               "typed values use canonical lexical forms"]
DC, DCT = "http://purl.org/dc/elements/1.1/", "http://purl.org/dc/terms/"
CTS, DTS = "http://chs.harvard.edu/xmlns/cts/", "https://w3id.org/dts/api#"
RDFS, SKOS = "http://www.w3.org/2000/01/rdf-schema#", "http://www.w3.org/2004/02/skos/core#"
RDF = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
XSD = "http://www.w3.org/2001/XMLSchema#"
KEYS = [(DC, "title"), (DC, "creator"), (DC, "language"), (DCT, "title"), (DCT, "isPartOf"), (CTS, "title"), (CTS, "label"), (RDFS, "label"),
        (SKOS, "prefLabel"), ("http://example.org/ns#", "note"), ("http://example.org/ns#", "seeAlso"), ("http://example.org/other/", "note"), (DTS, "version"),
        (DC, "subject"), (DC, "description"),
        # a namespace which begins others, a term which begins another
        ("http://example.org/", "note"), ("http://example.org/ns#", "noteworthy")]
NESTED = [x for x in KEYS if x[0].startswith("http://example.org/")]
NODES = ["urn:cts:a:b.c", "urn:cts:a:b", "http://example.org/x", "_:1", "_:2"]
TEXTS = ["Epigrammata", "De Bello Gallico", "Μῆνις Ἄειδε", "Abū", "A & B", "A < B", "\"Quoted\"", "1", "", "Ab Urbe", "X" * 40, "Q. Horatius", "Two  Spaces"]
LANGS = [[], [], ["en"], ["la"], ["fr"], ["gre"], ["zh-hans"]]
CLASSES = {
    "Collection": {"type": {"ns": DTS, "name": "collection"}, "model": "collection", "title": "none"},
    "CtsTextgroupMetadata": {"type": {"ns": CTS, "name": "textgroup"}, "model": "collection", "title": "groupname"},
    "CtsWorkMetadata": {"type": {"ns": CTS, "name": "work"}, "model": "collection", "title": "title"},
    "CtsEditionMetadata": {"type": {"ns": CTS, "name": "edition"}, "model": "resource", "title": "label"},
    "CtsTranslationMetadata": {"type": {"ns": CTS, "name": "translation"}, "model": "resource", "title": "label"},
    "CtsCommentaryMetadata": {"type": {"ns": CTS, "name": "commentary"}, "model": "resource", "title": "label"},
    "CtsTextInventoryMetadata": {"type": {"ns": CTS, "name": "TextInventory"}, "model": "collection", "title": "name"},
    "CtsTextInventoryCollection": {"type": {"ns": CTS, "name": "CtsTextInventoryCollection"}, "model": "collection", "title": "name"},
    "ResourceCollection": {"type": {"ns": DTS, "name": "collection"}, "model": "collection", "title": "none"},
}


def k(ns, name):
    return {"ns": ns, "name": name}


def rv(rng, lang):
    x = rng.random()
    t = rng.choice(TEXTS)
    if x < .55:
        return {"kind": "str", "s": t, "lang": [], "dt": []}
    if x < .7:
        l = rng.choice(LANGS)
        return {"kind": "lit", "s": t, "lang": l, "dt": [] if l or rng.random() < .7 else [XSD + "string"]}
    if x < .85 or lang:
        return {"kind": "uri", "s": rng.choice(NODES[:3] + ["http://example.org/a?b=1&c=2"]), "lang": [], "dt": []}
    if x < .9:
        return {"kind": "bn", "s": "_:3", "lang": [], "dt": []}
    if x < .97:
        return {"kind": "int", "s": str(rng.randint(0, 2000)), "lang": [], "dt": []}
    return {"kind": "lit", "s": "2018-03-04", "lang": [], "dt": [XSD + "date"]}


def scenarios(rng, tier, mc):
    yield {"id": "kf-title", "key": "json-title-case", "class": "known", "ops": [
        {"op": "add", "n": NODES[0], "k": k(DC, "title"), "v": {"kind": "str", "s": "de bello gallico", "lang": [], "dt": []}, "lang": []},
        {"op": "export", "n": NODES[0], "fmt": "json", "only": [], "excl": []}]}
    for n, hist in enumerate(mc if tier == "quick" else mc[:20000]):
        for o in hist:
            if o["op"] == "unlink":
                o["s"] = []
            elif o["op"] == "remove":
                o["v"] = []
        yield {"id": "mc%d" % n, "class": "specification history", "ops": hist + [
            {"op": "get", "n": x, "k": y, "lang": []} for x in ("urn:a", "urn:b") for y in (k(DC, "title"), k(DCT, "title"))] + [
            {"op": "single", "n": x, "k": y, "lang": l} for x in ("urn:a", "urn:b") for y in (k(DC, "title"),) for l in ([], ["en"], ["la"])] + [
            {"op": "export", "n": "urn:a", "fmt": "ld", "only": [[DC]], "excl": []}]}
    for n in range(2500 if tier == "quick" else 12000):
        nodes = rng.sample(NODES, rng.randint(1, 3))
        keys = rng.sample(NESTED if rng.random() < .15 else KEYS, rng.randint(2, 5))
        langs = LANGS
        if rng.random() < .12:  # many values of one key in one language
            nodes, keys, langs = nodes[:1], keys[:1], [rng.choice(LANGS)]
        ops, colls = [], {}
        pick = lambda: (rng.choice(nodes), k(*rng.choice(keys)))
        for _ in range(rng.randint(4, 25)):
            x = rng.random()
            nd, ky = pick()
            if x < .3:
                lang = rng.choice(langs)
                ops.append({"op": rng.choice(["add", "add", "add", "set"]), "n": nd, "k": ky, "v": rv(rng, lang), "lang": lang})
                if ops[-1]["v"]["kind"] in ("bn", "int"):
                    ops[-1]["lang"] = []
            elif x < .36:
                v = []
                if rng.random() < .4:
                    prev = [o["v"] for o in ops if o["op"] == "add" and not o["lang"]]
                    v = [rng.choice(prev)] if prev else []
                ops.append({"op": "remove", "n": nd, "k": [ky] if rng.random() < .7 or not v else [], "v": v})
            elif x < .38 and nd[0] != "_":  # several subjects said of one node, one of them unlinked
                u = {"kind": "uri", "s": nd, "lang": [], "dt": []}
                subs = [rng.choice(nodes) for _ in range(3)]
                ops += [{"op": "add", "n": s, "k": rng.choice([ky, ky, pick()[1]]), "v": u, "lang": []} for s in subs]
                ops.append({"op": "unlink", "n": nd, "s": [rng.choice(subs)] if rng.random() < .8 else [], "k": [ky] if rng.random() < .8 else []})
            elif x < .41:
                ops.append({"op": "unlink", "n": nd, "s": [rng.choice(nodes)] if rng.random() < .4 else [], "k": [ky] if rng.random() < .5 else []})
            elif x < .5:
                ops.append({"op": "get", "n": nd, "k": ky, "lang": rng.choice(LANGS)})
            elif x < .6:
                ops.append({"op": "single", "n": nd, "k": ky, "lang": rng.choice(LANGS), "how": rng.choice(["call", "item", "str"])})
            elif x < .68:
                if rng.random() < .5:
                    c = rng.choice(sorted(CLASSES))
                    nn = rng.choice(NODES[:2])
                    ops.append({"op": "coll", "n": nn, "c": c, "cls": CLASSES[c]})
                    colls[nn] = c
                else:
                    ops.append({"op": "getor", "n": nd, "k": ky})
            elif x < .86 and colls:
                nn = rng.choice(sorted(colls))
                c = colls[nn]
                y = rng.random()
                lang = rng.choice(LANGS)
                sv = {"kind": "str", "s": rng.choice(TEXTS), "lang": [], "dt": []}
                if y < .2:
                    ops.append({"op": "label", "n": nn, "v": sv, "lang": lang})
                elif y < .35:
                    ops.append({"op": "attr", "n": nn, "which": rng.choice(["version", "type", "model", "id"])})
                elif y < .45:
                    w = rng.choice(["version", "type", "model"])
                    if w == "version":
                        ops.append({"op": "put", "n": nn, "which": w, "k": k(DTS, "version"), "v": sv, "as": "lit"})
                    else:
                        ops.append({"op": "put", "n": nn, "which": w, "k": k(RDF, "type") if w == "type" else k(DTS, "model"),
                                    "v": {"kind": "uri", "s": rng.choice([DTS + "collection", DTS + "resource", CTS + "work"]), "lang": [], "dt": []}, "as": "uri"})
                elif y < .6:
                    ops.append({"op": "single", "n": nn, "k": k(RDFS, "label"), "lang": lang, "how": "label"})
                elif c.startswith("Cts"):
                    p = rng.choice(["groupname", "title", "label", "description", "name"])
                    if y < .75:
                        if lang and rng.random() < .3:  # a literal speaks for itself
                            ops.append({"op": "prop", "n": nn, "prop": p, "v": dict(sv, kind="lit", lang=lang), "lang": rng.choice([[], lang])})
                        else:
                            ops.append({"op": "prop", "n": nn, "prop": p, "v": sv, "lang": lang})
                        if rng.random() < .4:  # several languages, one wanted
                            more = rng.sample(["en", "fr", "la", "eng"], rng.randint(1, 3))
                            ops.extend({"op": "prop", "n": nn, "prop": p, "v": dict(sv, s=rng.choice(TEXTS)), "lang": [g]} for g in more)
                            ops.append({"op": "getprop1", "n": nn, "prop": p, "lang": rng.choice([[g] for g in more] + [lang or ["en"]])})
                    elif y < .8:
                        ops.append({"op": "getprop", "n": nn, "prop": p})
                    elif y < .86:
                        ops.append({"op": "getprop1", "n": nn, "prop": p, "lang": lang or ["en"]})
                    elif y < .92:
                        ops.append({"op": "link", "n": nn, "k": k(CTS, "about"), "v": {"kind": "uri", "s": rng.choice(NODES[:3]), "lang": [], "dt": []}, "str": rng.random() < .5})
                    elif y < .95:
                        ops.append({"op": "get", "n": nn, "k": k(CTS, "about"), "lang": [], "how": "link"})
                    elif "work" in c.lower() or c[3:] in ("EditionMetadata", "TranslationMetadata", "CommentaryMetadata"):
                        ops.append({"op": "put", "n": nn, "which": "lang", "k": k(DC, "language"), "v": {"kind": "str", "s": rng.choice(["lat", "grc"]), "lang": [], "dt": []}, "as": "lit"})
                        ops.append({"op": "attr", "n": nn, "which": "lang"})
                elif c == "ResourceCollection":
                    ops.append({"op": "single", "n": nn, "k": k(DC, rng.choice(["creator", "title", "description", "subject"])), "lang": lang, "how": "rc"})
            elif x < .92:
                two = [{"kind": "str", "s": rng.choice(TEXTS), "lang": [], "dt": []} for _ in range(2)]
                rcs = [m for m in colls if colls[m] == "ResourceCollection"]
                w = rng.choice(["creator", "title", "description", "subject"])
                if rcs and rng.random() < .5:  # said in two languages of a resource
                    nn = rng.choice(rcs)
                    ls = rng.sample([o for o in LANGS if o], 2)
                    ops += [{"op": "add", "n": nn, "k": k(DC, w), "v": v, "lang": o} for v, o in zip(two, ls)]
                    ops += [{"op": "single", "n": nn, "k": k(DC, w), "lang": o, "how": "rc"} for o in rng.sample(ls, 2)]
                    continue
                nn = rng.choice(["_:t0", "_:t1"])
                if not any(o["op"] == "text" and o["n"] == nn for o in ops):
                    ops.append({"op": "text", "n": nn, "id": rng.choice(NODES[:2])})
                if rng.random() < .4:
                    lang = rng.choice(LANGS)
                    ops.append({"op": "add", "n": nn, "k": k(DC, w), "v": {"kind": "str", "s": rng.choice(TEXTS), "lang": [], "dt": []}, "lang": lang, "how": "text"})
                else:
                    ops.append({"op": "title2" if w == "title" else "single", "n": nn, "k": k(DC, w), "lang": rng.choice(LANGS), "how": "text"})
            else:
                terms = [rng.choice([a, a + b]) for a, b in
                         (rng.sample(keys, rng.randint(1, min(2, len(keys)))) if rng.random() < .5 else rng.sample(KEYS, rng.randint(0, 3)))]
                only = [terms] if rng.random() < .4 else []
                excl = [terms] if not only and rng.random() < .5 else []
                ops.append({"op": "export", "n": nd, "fmt": rng.choice(["json", "rdf", "ld", "cts"]), "only": only, "excl": excl, "str": rng.random() < .5})
        for f in ("json", "rdf", "ld", "cts"):
            ops.append({"op": "export", "n": rng.choice(nodes), "fmt": f, "only": [], "excl": []})
        yield {"id": "r%d" % n, "class": "history", "ops": ops}


class W(object):
    """ the world of one scenario: a fresh graph, named blank nodes, metadata handles and collections """

    def __init__(self):
        import rdflib
        from MyCapytain.common.constants import set_graph, bind_graph, get_graph
        set_graph(bind_graph())
        self.r, self.graph, self.bn, self.coll, self.text = rdflib, get_graph(), {}, {}, {}

    def node(self, name):
        if name.startswith("_:"):
            if name not in self.bn:
                self.bn[name] = self.r.BNode()
            return self.bn[name]
        return self.r.URIRef(name)

    def name(self, x):
        if isinstance(x, self.r.BNode):
            for a, b in self.bn.items():
                if a != "" and b == x:
                    return a
            return "_:?"
        return S(x)

    def val(self, v):
        if v["kind"] == "str":
            return v["s"]
        if v["kind"] == "int":
            return int(v["s"])
        if v["kind"] == "lit":
            return self.r.Literal(v["s"], lang=v["lang"][0] if v["lang"] else None, datatype=self.r.URIRef(v["dt"][0]) if v["dt"] else None)
        return self.node(v["s"])

    def enc(self, o, blank=False):
        if isinstance(o, self.r.Literal):
            return {"t": "lit", "s": S(str(o)), "lang": [S(o.language)] if o.language is not None else [], "dt": [S(str(o.datatype))] if o.datatype is not None else []}
        if isinstance(o, self.r.BNode):
            return {"t": "bn", "s": "" if blank else self.name(o), "lang": [], "dt": []}
        if isinstance(o, self.r.URIRef):
            return {"t": "uri", "s": S(str(o)), "lang": [], "dt": []}
        return {"t": "?" + type(o).__name__, "s": S(str(o)), "lang": [], "dt": []}

    def dump(self):
        return sorted(({"n": self.name(a), "k": S(str(b)), "v": self.enc(c)} for a, b, c in self.graph), key=repr)

    def md(self, n):
        from MyCapytain.common.metadata import Metadata
        return Metadata(node=self.node(n))      # a new handle every time: they all share the statements

    def textual(self, n):
        return self.text[n]


def execute(scn):
    from MyCapytain.common.metadata import Metadata
    from MyCapytain.common.constants import Mimetypes
    import MyCapytain.resources.prototypes.cts.inventory as inv
    import MyCapytain.resources.prototypes.metadata as pm
    import rdflib
    from lxml import etree
    w = W()
    ev = []
    one = lambda x: [] if x is None else [w.enc(x)]
    lg = lambda o: o["lang"][0] if o["lang"] else None
    for op in scn["ops"]:
        e = {a: b for a, b in op.items() if a not in ("how", "str", "c", "which")}
        key = lambda: rdflib.URIRef(op["k"]["ns"] + op["k"]["name"])
        n, t = op["n"], op["op"]
        how = op.get("how")
        if t == "add":
            if how == "text":
                getattr(w.textual(n), "set_" + op["k"]["name"])(w.val(op["v"]), lg(op))
            else:
                w.md(n).add(key(), w.val(op["v"]), lg(op)) if op["lang"] else w.md(n).add(key(), w.val(op["v"]))
        elif t == "set":
            w.md(n).set(key(), w.val(op["v"]), lg(op)) if op["lang"] else w.md(n).set(key(), w.val(op["v"]))
        elif t == "remove":
            v = None
            if op["v"]:
                v = w.val(op["v"][0])
                v = v if isinstance(v, (rdflib.URIRef, rdflib.BNode, rdflib.Literal)) else rdflib.Literal(v)
            w.md(n).remove(rdflib.URIRef(op["k"][0]["ns"] + op["k"][0]["name"]) if op["k"] else None, v)
        elif t == "unlink":
            w.md(n).unlink(w.node(op["s"][0]) if op["s"] else None, rdflib.URIRef(op["k"][0]["ns"] + op["k"][0]["name"]) if op["k"] else None)
        elif t == "get":
            if how == "link":
                r = w.coll[n].get_link(key())
            else:
                r = w.md(n).get(key(), lg(op)) if op["lang"] else w.md(n)[key()]
            e["res"] = [w.enc(x) for x in r]
        elif t == "single":
            if how == "label":
                r = w.coll[n].get_label(lg(op))
            elif how == "rc":
                r = getattr(w.coll[n], "get_" + op["k"]["name"])(lg(op))
            elif how == "text":
                r = getattr(w.textual(n), "get_" + op["k"]["name"])(lg(op))
            elif how == "item":
                r = w.md(n)[key(), lg(op)]
            else:
                r = w.md(n).get_single(str(key()) if how == "str" else key(), lg(op))
            e["res"] = one(r)
        elif t == "title2":
            e["res"] = one(w.textual(n).get_title(lg(op)))
        elif t == "text":
            from MyCapytain.resources.prototypes.text import TextualNode
            w.text[n] = TextualNode(identifier=op["id"])
            w.bn[n] = w.text[n].metadata.asNode()
        elif t == "coll":
            w.coll[n] = getattr(pm if not op["c"].startswith("Cts") else inv, op["c"])(n)
        elif t == "label":
            w.coll[n].set_label(w.val(op["v"]), lg(op))
        elif t == "prop":
            w.coll[n].set_cts_property(op["prop"], w.val(op["v"]), lg(op))
        elif t == "getprop":
            r = w.coll[n].get_cts_property(op["prop"])
            e["res"] = [w.enc(x) for a, x in r.items() if a == getattr(x, "language", None)]
        elif t == "getprop1":
            e["res"] = obs(lambda: w.coll[n].get_cts_property(op["prop"], lg(op)), w.enc)
        elif t == "link":
            w.coll[n].set_link(key(), op["v"]["s"] if op["str"] else w.val(op["v"]))
        elif t == "put":
            x = op["v"]["s"]
            if len(x) % 2 and op["which"] != "lang":
                x = w.r.URIRef(x) if op["as"] == "uri" else w.r.Literal(x)
            setattr(w.coll[n], op["which"], x)
        elif t == "attr":
            c, a = w.coll[n], op["which"]
            e["k"] = {"version": k(DTS, "version"), "type": k(RDF, "type"), "model": k(DTS, "model"), "lang": k(DC, "language"), "id": k("", "")}[a]
            r = obs(lambda: getattr(c, a), lambda v: S(str(v)))
            e["res"] = r["v"] if r["k"] == "v" else "!!raised"
            if a == "id" and r["v"] != n:
                e["res"], e["k"] = "!!id", k(RDF, "type")
        elif t == "getor":
            m = Metadata.getOr(w.node(n), key())
            e["res"] = w.name(m.asNode())
            e["fresh"] = e["res"] == "_:?"
        elif t == "export":
            mk = lambda q: None if not q else [x if op.get("str") else rdflib.URIRef(x) for x in q[0]]
            only, excl = mk(op["only"]), mk(op["excl"])
            kw = {}
            if only is not None:
                kw["only"] = only
            if excl is not None:
                kw["exclude"] = excl
            M = {"json": Mimetypes.JSON.Std, "rdf": Mimetypes.XML.RDF, "ld": Mimetypes.JSON.LD, "cts": Mimetypes.XML.CapiTainS.CTS}
            r = w.md(n).export(M[op["fmt"]], **kw)
            e["kept"] = only == mk(op["only"]) and excl == mk(op["excl"])
            if op["fmt"] == "json":
                e["tc"] = sorted({(S(str(o)), S(str(o).title())) for o in w.graph.objects(w.node(n)) if isinstance(o, rdflib.Literal) and str(o) != str(o).title()}) if scn["id"] != "kf-title" else []
                e["res"] = [{"k": S(p), "lang": [S(l)] if l is not None else [], "s": S(v)} for p, d in r.items() for l, vs in d.items()
                            for v in (vs if isinstance(vs, list) else [vs])]
            elif op["fmt"] == "cts":
                ns = {a: str(b) for a, b in w.graph.namespace_manager.namespaces()}
                x = etree.fromstring("<r %s>%s</r>" % (" ".join('xmlns%s="%s"' % (":" + a if a else "", b) for a, b in ns.items() if a != "xml"), r))
                out = []
                for c in x:
                    q = etree.QName(c)
                    la, dt = c.get("{http://www.w3.org/XML/1998/namespace}lang"), c.get("{%s}datatype" % RDF)
                    tx = c.text or ""
                    known = next((y for y in w.graph.objects(w.node(n), rdflib.URIRef(q.namespace + q.localname))
                                  if not isinstance(y, rdflib.Literal) and str(y) == tx), None)
                    v = w.enc(known, True) if known is not None and la is None and dt is None else {"t": "lit", "s": S(tx), "lang": O(la), "dt": O(dt)}
                    out.append({"k": q.namespace + q.localname, "v": v})
                e["res"] = out
            else:
                g = rdflib.Graph()
                g.parse(data=r, format="xml" if op["fmt"] == "rdf" else "json-ld")
                bad = [s for s in g.subjects() if isinstance(w.node(n), rdflib.URIRef) and s != w.node(n)]
                e["res"] = [{"k": S(str(b)), "v": w.enc(c, True)} for a, b, c in g] + [{"k": "!!subject", "v": w.enc(x)} for x in bad]
        ev.append(e)
        if t in ("add", "set", "remove", "unlink", "coll", "text", "label", "prop", "link", "put", "export"):
            ev.append({"op": "dump", "G": w.dump()})
    return {"id": scn["id"], "ev": ev}
