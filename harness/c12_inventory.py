"""C12: CTS inventories as XML - parsing, exporting, round trips."""
import citgen
from fw import S, O, I, L, B, obs
from c10_metadata import DC, DCT, CTS, DTS, RDF, RDFS, SKOS, XSD, TEXTS

MC = [("MCInv.tla", "MCInv.cfg")]
MC_THOROUGH = [("MCInv.tla", "MCInvBig.cfg")]
TRACE = ("TraceInv.tla", "Trace.cfg")
REQUIRED_OPS = ["get", "same", "build", "parse", "dump", "export", "exportall"]
TIMEOUT = 60
ASSUMPTIONS = ["labels have a language tag (CTS requires one; the reader skips the others); plain structured metadata which looks like a number is a canonical integer, of a document which is not given as a plain lxml element",
               "identifiers used as structured metadata start with urn:, http:, https: or hdl:", "one object per identifier"]
TI, CPT, XMLNS = "http://chs.harvard.edu/xmlns/cts", "http://purl.org/capitains/ns/1.0#", "http://www.w3.org/XML/1998/namespace"
TAG = {"inv": "TextInventory", "tg": "textgroup", "wk": "work", "ed": "edition", "tr": "translation", "co": "commentary"}
TITLE = {"inv": "name", "tg": "groupname", "wk": "title", "ed": "label", "tr": "label", "co": "label"}
LANGS = ["eng", "fre", "lat", "la", "ger", "grc"]
MKEYS = [DC + "creator", DC + "source", DCT + "isPartOf", "http://example.org/ns#note", "http://example.org/other/x", DCT + "date", RDFS + "comment", SKOS + "note", CPT + "note"]
WORDS = [t for t in TEXTS if t != "1"] + ["tom & jerry", "a]]>b", "x: y", "<b>", "urns and vases", "https", "httpd: a server", "hdl 1/2", "urn", "Urn:x", " urn:a:b"]
FRONT = ["/tei:TEI/tei:text/tei:body/tei:div", "/tei:TEI/tei:text/tei:body", "/tei:TEI//tei:body"]


def lit(s, lang=None, dt=None):
    return {"t": "lit", "s": s, "lang": [lang] if lang else [], "dt": [dt] if dt else []}


def uri(s):
    return {"t": "uri", "s": s, "lang": [], "dt": []}


def rlabels(rng, k=3):
    out = []
    for l in rng.sample(LANGS, rng.choice([0, 1, 1, 2, k])):
        out.append((l, rng.choice(WORDS)))
        if rng.random() < .1:
            out.append((l, rng.choice(WORDS)))
    return out


def rmeta(rng):
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        x, k = rng.random(), rng.choice(MKEYS)
        if x < .35:
            v = lit(rng.choice(WORDS), rng.choice(LANGS))
        elif x < .6:
            v = uri(rng.choice(["urn:cts:a:b", "http://example.org/x?a=1&b=2", "https://w3.org/x", "hdl:1/2"]))
        elif x < .75:
            v = lit(str(rng.choice([0, 7, 10, 2018, -5, rng.randint(0, 999)])), None, XSD + "integer")
        elif x < .78:
            v = lit(rng.choice(["1.5", "0.25", "-3.75", "12.5"]), None, XSD + "float")
        elif x < .82:
            v = lit("2018-03-04", None, XSD + "date")
        else:
            v = lit(rng.choice(WORDS + ["true", "false"]))
        if v["t"] == "lit" and v["s"].startswith(("urn:", "http:", "https:", "hdl:")):
            continue
        out.append((k, v))
    return out


def rcit(rng):
    q, f = [], rng.choice(FRONT)
    quote = rng.choice(["'", "'", '"'])
    for _ in range(rng.choice([0, 1, 2, 3])):
        q.append({"name": [rng.choice(citgen.NAMES)], "scope": [f], "xpath": [rng.choice(["/tei:div", "//tei:l", "/tei:seg"]) + "[@n=%s?%s]" % (quote, quote)]})
        f = q[-1]["scope"][0] + q[-1]["xpath"][0]
    return q


def statements(cls, props, lang, about, meta):
    st = []

    def add(k, v):
        if {"k": k, "v": v} not in st:
            st.append({"k": k, "v": v})
    for p, ls in props.items():
        for l, t in ls:
            add(CTS + p, lit(t, l))
            if p == TITLE[cls]:
                add(RDFS + "label", lit(t, l))
                add(SKOS + "prefLabel", lit(t, l))
    if lang:
        add(DC + "language", lit(lang))
    for a in about:
        add(CTS + "about", uri(a))
    for k, v in meta:
        add(k, v)
    return st


def recs(rng, invs=1):
    """ random inventories as records, in document order """
    out = []
    for n in range(invs):
        iid = rng.choice(["inv", "default", "Inv&1", "urn:perseus"]) + (str(n) if invs > 1 else "")
        out.append({"id": iid, "cls": "inv", "par": "", "st": [], "cit": []})
        for g in range(rng.choice([0, 1, 1, 2, 3])):
            gid = "urn:cts:%sLit:phi%d" % (rng.choice(["latin", "greek"]), n * 100 + g)
            meta = rmeta(rng)
            out.append({"id": gid, "cls": "tg", "par": iid, "cit": [], "st": statements("tg", {"groupname": rlabels(rng)}, None, [], meta)})
            for w in range(rng.choice([0, 1, 1, 2])):
                wid, lang = gid + ".w%d" % w, rng.choice(LANGS) if rng.random() < .9 else None
                out.append({"id": wid, "cls": "wk", "par": gid, "cit": [], "st": statements("wk", {"title": rlabels(rng)}, lang, [], rmeta(rng))})
                ts = []
                for t in range(rng.choice([0, 1, 2, 2, 3])):
                    c = rng.choice(["ed", "ed", "tr", "co"])
                    tid = wid + ".%s%d" % (c, t)
                    tl = lang if c == "ed" or rng.random() < .3 else rng.choice(LANGS)
                    ab = rng.sample(["urn:cts:latinLit:phi0.w0", "urn:cts:x:y&z"], rng.choice([0, 1, 2])) if rng.random() < .3 or c == "co" else []
                    ts.append({"id": tid, "cls": c, "par": wid, "cit": rcit(rng) if rng.random() < .7 else [],
                               "st": statements(c, {"label": rlabels(rng), "description": rlabels(rng, 2)}, tl, ab, rmeta(rng))})
                out.extend(ts)
    return out


def el(tag, at=None, tx="", kids=None, ns=TI):
    return {"ns": ns, "tag": tag, "at": [{"k": k, "v": v} for k, v in (at or {}).items()], "tx": tx, "kids": kids or []}


def rdoc(rng, q, rid, bare=False):
    """ a document for the object rid of records q, with the liberties a hand-written inventory takes """
    r = next(x for x in q if x["id"] == rid)
    kids, at = [], {}
    if r["cls"] == "inv":
        at["tiid"] = rid
    else:
        at["urn"] = rid
    lang = next((x["v"]["s"] for x in r["st"] if x["k"] == DC + "language"), None)
    if lang and (r["cls"] != "ed" or rng.random() < .3):
        at["lang"] = lang
    if r["cls"] in ("tr", "co") and lang and rng.random() < .15:
        del at["lang"]                          # language of the work
    for x in r["st"]:
        if x["k"].startswith(CTS):
            p = x["k"][len(CTS):]
            kids.append(el(p, {"urn": x["v"]["s"]}) if p == "about" else el(p, {"lang": x["v"]["lang"][0]}, x["v"]["s"]))
    if rng.random() < .2:
        kids.append(el(rng.choice(["label", "title", "groupname", "description"]), {}, "No language"))
    if rng.random() < .2:
        kids.append(el(rng.choice(["label", "title", "groupname", "edition", "textgroup2"]), {"lang": "eng"}, "Other namespace", ns="http://www.tei-c.org/ns/1.0"))
    if rng.random() < .2:
        kids.append(el("memberof", {"collection": "x"}))
    if r["cit"]:
        c = []
        for y in reversed(r["cit"]):
            c = [el("citation", {"label": y["name"][0], "scope": y["scope"][0], "xpath": y["xpath"][0]}, "", c)]
        m = el("citationMapping", {}, "", c)
        kids.append(el("online", {"docname": "x.xml"} if rng.random() < .5 else {}, "", ([el("validate", {"schema": "tei.xsd"})] if rng.random() < .3 else []) + [m]))
    ms = [x for x in r["st"] if not x["k"].startswith(CTS) and x["k"] != DC + "language" and not (x["k"] in (RDFS + "label", SKOS + "prefLabel"))]
    if ms and r["cls"] != "inv":
        es = []
        for x in ms:
            i = max(x["k"].rfind("/"), x["k"].rfind("#")) + 1
            a = {}
            if x["v"]["lang"]:
                a["lang"] = x["v"]["lang"][0]
            # (a number needs no datatype where the reader sees values)
            if x["v"]["dt"] and not (bare and x["v"]["dt"][0] in (XSD + "integer", XSD + "float") and rng.random() < .5):
                a["dt"] = x["v"]["dt"][0]
            es.append(el(x["k"][i:], a, x["v"]["s"], ns=x["k"][:i]))
        if rng.random() < .2:
            es.append(el("odd", {"dt": "http://example.org/ns#kns:x"}, "v", ns="http://example.org/ns#"))
        if len(es) > 1 and rng.random() < .3:
            kids.append(el("structured-metadata", {}, "", es[:1], ns=CPT))
            es = es[1:]
        kids.append(el("structured-metadata", {}, "", es, ns=CPT))
    for x in q:
        if x["par"] == rid:
            kids.append(rdoc(rng, q, x["id"], bare))
    if rng.random() < .4:
        rng.shuffle(kids)
    return el(TAG[r["cls"]], at, "", kids)


def scenarios(rng, tier, mc):
    if len(mc) > 400 and tier == "quick":
        mc = rng.sample(mc, 400)
    for n, r in enumerate(mc):
        yield {"id": "mc%d" % n, "class": "specification inventory", "recs": r, "xml": n % 2 == 0,
               "steps": [{"op": "export", "id": r[1 + n % (len(r) - 1)]["id"], "cap": n % 3 == 0}, {"op": "export", "id": r[0]["id"], "cap": n % 2 == 0}, {"op": "reparse"}]}
    for n in range(1100 if tier == "quick" else 6000):
        invs = rng.choice([1, 1, 1, 2, 3])
        q = recs(rng, invs)
        scn = {"id": "r%d" % n, "xml": rng.random() < .6, "how": rng.choice(["str", "io", "el", "obj", "http"]), "noise": rng.random() < .3}
        steps = []
        if invs > 1:
            scn.update({"recs": q, "class": "inventory collection"})
            steps = [{"op": "exportall", "id": rng.choice(["all", "a&b"]), "cap": rng.random() < .5}, {"op": "reparse"}]
            yield dict(scn, steps=steps)
            continue
        if rng.random() < .5:
            rid = q[0]["id"] if rng.random() < .5 else rng.choice(q)["id"]
            cls = next(r["cls"] for r in q if r["id"] == rid)
            scn.update({"doc": rdoc(rng, q, rid, scn["how"] != "el"), "cls": cls, "class": "document of a %s" % TAG[cls]})
            ids = [rid]
        else:
            scn.update({"recs": q, "class": "built inventory"})
            ids = [r["id"] for r in q]
        for _ in range(rng.randint(1, 4)):
            steps.append({"op": "export", "id": rng.choice(ids), "cap": rng.random() < .5})
            if rng.random() < .5:
                ids = [steps[-1]["id"]]
                steps.append({"op": "reparse"})
        yield dict(scn, steps=steps)


# ------------------------------------------------------------------ execution
def render(d, rng_noise):
    """ the element as text; prefixes of our own choice """
    ns = {TI: "ti", CPT: "cpt", "http://www.tei-c.org/ns/1.0": "t", DC: "dc", DCT: "dct", "http://example.org/ns#": "kns", "http://example.org/other/": "e2",
          RDFS: "rdfs", SKOS: "skos", RDF: "rdf", XSD: "xsd"}
    esc = lambda t: t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")

    def go(d, top):
        tag = ("" if d["ns"] == TI and rng_noise else ns[d["ns"]] + ":") + d["tag"]
        at = []
        for a in d["at"]:
            v = a["v"]
            if a["k"] == "dt":
                if v.startswith("http://example.org/ns#"):
                    v = "kns:" + v[len("http://example.org/ns#"):]
                elif v.startswith(XSD) and rng_noise:
                    v = "xsd:" + v[len(XSD):]
            at.append(' %s="%s"' % ({"lang": "xml:lang", "dt": "rdf:datatype"}.get(a["k"], a["k"]), esc(v).replace('"', "&quot;")))
        if top:
            at += [' xmlns:%s="%s"' % (p, u) for u, p in ns.items()] + ([' xmlns="%s"' % TI] if rng_noise else [])
        inner = esc(d["tx"]) + "".join(("\n" if rng_noise else "") + ("<!-- c -->" if rng_noise and i % 3 == 0 else "") + go(k, False) for i, k in enumerate(d["kids"]))
        return "<%s%s>%s</%s>" % (tag, "".join(at), inner, tag)
    return go(d, True)


def elements(text):
    from lxml import etree
    try:
        root = etree.fromstring(text.encode("utf-8") if isinstance(text, str) else text)
    except Exception as e:
        return {"ns": "", "tag": "!!", "at": [], "tx": S(str(e))[:300], "kids": []}

    def go(x):
        q = etree.QName(x)
        at = []
        for k, v in x.attrib.items():
            if k == "{%s}lang" % XMLNS:
                k = "lang"
            elif k == "{%s}datatype" % RDF:
                k = "dt"
                if not v.startswith("http") and ":" in v:
                    p, r = v.split(":", 1)
                    v = x.nsmap.get(p, p) + r
            at.append({"k": S(k), "v": S(v)})
        kids = [go(y) for y in x if isinstance(y.tag, str)]
        return {"ns": S(q.namespace or ""), "tag": S(q.localname), "at": at, "tx": S(x.text or "") if not kids else "", "kids": kids}
    return go(root)


def value(o):
    import rdflib
    if isinstance(o, rdflib.Literal):
        return {"t": "lit", "s": S(str(o)), "lang": [S(o.language)] if o.language is not None else [], "dt": [S(str(o.datatype))] if o.datatype is not None else []}
    return {"t": "uri" if isinstance(o, rdflib.URIRef) else "bn", "s": S(str(o)), "lang": [], "dt": []}


def dump(root, top=True):
    """ the record of an object and of everything below, through the public attributes """
    cls = next((c for c, t in TAG.items() if str(root.TYPE_URI) == CTS + t), "?")
    if str(root.type) != str(root.TYPE_URI) or not str(root.model).startswith(DTS):
        cls = "!!" + cls
    st = [{"k": S(str(p)), "v": value(o)} for p, o in root.graph.predicate_objects(root.asNode()) if not str(p).startswith((DTS, RDF)) and str(p) != CPT + "parent"]
    if cls in ("wk", "ed", "tr", "co"):
        # the language attribute agrees with the statement
        if root.lang != next((s["v"]["s"] for s in st if s["k"] == DC + "language"), None):
            st.append({"k": "!!lang", "v": lit(S(root.lang))})
    if cls in ("tg", "wk", "ed", "tr", "co") and (str(root.urn) != root.id):
        st.append({"k": "!!urn", "v": lit(str(root.urn))})
    for lg, v in ((s["v"]["lang"][0], s["v"]["s"]) for s in list(st) if s["k"] == RDFS + "label" and s["v"]["lang"]):
        if len([1 for s in st if s["k"] == RDFS + "label" and s["v"]["lang"] == [lg]]) == 1 and str(root.get_label(lg)) != v:
            st.append({"k": "!!label", "v": lit(S(str(root.get_label(lg))))})
    cit = getattr(root, "citation", None)
    out = [{"id": S(root.id), "cls": cls, "par": "" if top else S(root.parent.id if root.parent is not None else "!!"), "st": sorted(st, key=repr),
            "cit": [{"name": O(c.name), "scope": O(c.scope), "xpath": O(c.xpath)} for c in cit] if cit is not None else []}]
    for m in root.members:
        if m.parent is not root:
            out[0]["cls"] = "!!parent"
        out.extend(dump(m, False))
    return out


def members(o):
    return [o] + [x for m in o.members for x in members(m)]


def build(q, C):
    from MyCapytain.common.reference import Citation
    import rdflib
    objs = {}
    for r in q:
        par = objs.get(r["par"])
        lang = next((s["v"]["s"] for s in r["st"] if s["k"] == DC + "language"), None)
        if r["cls"] == "inv":
            o = C["inv"](r["id"])
        elif r["cls"] in ("tg", "wk"):
            o = C[r["cls"]](r["id"], parent=par)
            if lang:
                o.lang = lang
        else:
            o = C[r["cls"]](r["id"], parent=par, lang=lang) if lang and r["cls"] != "ed" else C[r["cls"]](r["id"], parent=par)
        objs[r["id"]] = o
        for s in r["st"]:
            v = s["v"]
            if s["k"] == CTS + "about":
                o.set_link(rdflib.URIRef(s["k"]), v["s"])
            elif s["k"].startswith(CTS):
                o.set_cts_property(s["k"][len(CTS):], v["s"], v["lang"][0])
            elif s["k"] not in (DC + "language", RDFS + "label", SKOS + "prefLabel"):
                o.metadata.add(rdflib.URIRef(s["k"]), rdflib.URIRef(v["s"]) if v["t"] == "uri" else
                               rdflib.Literal(v["s"], lang=v["lang"][0] if v["lang"] else None, datatype=rdflib.URIRef(v["dt"][0]) if v["dt"] else None))
        if r["cit"]:
            t = None
            for c in reversed(r["cit"]):
                t = Citation(name=c["name"][0], scope=c["scope"][0], xpath=c["xpath"][0], child=t)
            o.citation = t
    return objs


def execute(scn):
    import io
    from lxml import etree, objectify
    from MyCapytain.common.constants import get_graph, set_graph, bind_graph, Mimetypes
    import collops
    X = collops.classes(True)
    ev = []
    text = cls = root = None
    how, noise = scn.get("how", "str"), scn.get("noise", False)

    def remote(text, oid):
        """ asked of an endpoint """
        import ctsapi
        from MyCapytain.retrievers.cts5 import HttpCtsRetriever
        from MyCapytain.resolvers.cts.api import HttpCtsResolver
        set_graph(bind_graph())
        p = ["", "ti:", "CTS:"][len(text) % 3]
        body = text[text.index("?>") + 2:] if text.startswith("<?xml") else text
        body = '<%sGetCapabilities xmlns%s="%s"><%srequest><%srequestName>GetCapabilities</%srequestName></%srequest>\n<%sreply>%s</%sreply></%sGetCapabilities>' % (p, ":" + p[:-1] if p else "", TI, p, p, p, p, p, body, p, p)
        with ctsapi.served({"body": body, "charset": "utf-8"}):
            res = HttpCtsResolver(HttpCtsRetriever("http://localhost/cts"))
            return res.getMetadata(oid) if oid else res.getMetadata()

    def parse(text, cls):
        set_graph(bind_graph())
        doc = elements(text)
        if doc["tag"] == "!!":
            return None
        src = {"str": lambda: text, "io": lambda: io.StringIO(text), "http": lambda: text, "el": lambda: etree.fromstring(text), "obj": lambda: objectify.fromstring(text)}[how]()
        extra = []
        if how == "http" and cls == "inv":
            o = obs(lambda: remote(text, None), lambda v: v)
            r = o["v"]
        elif cls == "wk":
            o = obs(lambda: X["wk"].parse(src, _with_children=True), lambda v: v)
            if o["k"] == "v":
                r, kids = o["v"]
                extra = [[S(k.id) for k in kids]]
        else:
            o = obs(lambda: X[cls].parse(src), lambda v: v)
            r = o["v"]
        if o["k"] == "x":
            ev.append({"op": "parse", "cls": cls, "doc": doc, "res": [], "texts": 0, "extra": [], "raised": o["v"][0]})
            return None
        if how == "str":
            # the same document read by someone else
            here = get_graph()
            if len(text) % 2:
                set_graph(bind_graph())
            again = obs(lambda: X["wk"].parse(text, _with_children=True)[0] if cls == "wk" else X[cls].parse(text), lambda v: v)["v"]
            set_graph(here)
            a, b = ([m for m in members(x) if getattr(m, "urn", None) is not None][:5] for x in (r, again if not isinstance(again, list) else r))
            same = [[S(m.id), S(n.id), obs(lambda: m == n, B), obs(lambda: m != n, B)] for m in a for n in b] + [["", S(m.id), obs(lambda: m == k, B), obs(lambda: m != k, B)] for m in a[:2] for k in (None, m.id, 0)]
        ev.append({"op": "parse", "cls": cls, "doc": doc, "res": dump(r), "texts": I(len(r)) if cls in ("inv", "tg", "wk") else 1, "extra": extra})
        if how == "str":
            ev.append({"op": "same", "pairs": same})
        if how == "http" and cls == "inv":
            for i in [x["id"] for x in ev[-1]["res"] if x["id"]][::3][:4] + ["urn:cts:no:such"]:
                ev.append({"op": "get", "id": i, "obs": obs(lambda: dump(remote(text, i)), lambda v: v)})
            r = remote(text, None)
        return r

    if "doc" in scn:
        text, cls = render(scn["doc"], noise), scn["cls"]
        root = parse(text, cls)
        find = lambda i: root if root.id == i else root[i]
    else:
        set_graph(bind_graph())
        C = collops.classes(scn["xml"])
        objs = build(scn["recs"], C)
        ev.append({"op": "build", "recs": scn["recs"]})
        if scn["steps"][0]["op"] == "exportall":
            root = C["ic"](scn["steps"][0]["id"])
            for o in objs.values():
                if isinstance(o, C["inv"]):
                    o.parent = root
        else:
            root = objs[scn["recs"][0]["id"]]
            ev.append({"op": "dump", "res": dump(root)})
        find = lambda i: objs[i]
    for s in scn["steps"]:
        if root is None:
            break
        if s["op"] in ("export", "exportall"):
            o = root if s["op"] == "exportall" else find(s["id"])
            r = obs(lambda: o.export(Mimetypes.XML.CapiTainS.CTS if s["cap"] else Mimetypes.XML.CTS), lambda v: v)
            text = r["v"] if r["k"] == "v" and isinstance(r["v"], str) else "!!raised %s" % r["v"]
            cls = "inv" if s["op"] == "exportall" else next(c for c, t in TAG.items() if str(o.TYPE_URI) == CTS + t)
            ev.append({"op": s["op"], "id": s["id"], "cap": s["cap"], "doc": elements(text)})
        else:
            root = parse(text, cls)
            find = lambda i, root=root: root if root.id == i else root[i]
    return {"id": scn["id"], "ev": ev}
