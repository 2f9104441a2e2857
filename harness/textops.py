"""Execution of text scenarios (C05-C08): ops on a local CapiTainS text, fully observed."""
import io
import docgen
from fw import S, O, I, L, B, obs
from lxml import etree


def load(scn):
    from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
    from MyCapytain.common.reference import Citation
    xml = docgen.to_xml(scn["doc"])
    how = scn.get("how", "str")
    kw = {}
    if scn.get("urn"):
        kw["urn"] = scn["urn"]
    if scn.get("given"):        # the scheme is given instead of found
        c = None
        for k, p in reversed(list(enumerate(docgen.refsdecl(scn["sch"])))):
            c = Citation(name="lv%d" % (k + 1), refsDecl=p, child=c)
        kw["citation"] = c
    if how == "str":
        r = xml
    elif how == "file":
        r = io.StringIO(xml)
    elif how == "etree":
        r = etree.fromstring(xml)
    else:
        from MyCapytain.common.utils.xml import xmlparser
        r = xmlparser(xml)
    return CapitainsCtsText(resource=r, **kw)


def enc_reffs(t, want_level=None):
    def f(rs):
        lv = I(rs.level)
        root = [c for c in t.citation]
        cit = next((i + 1 for i, c in enumerate(root) if c is rs.citation), 0)
        return {"refs": [S(str(r)) for r in rs], "level": lv, "cit": cit,
                "depths": all(r.depth == lv and not r.is_range() for r in rs)}
    return f


def enc_pass(p):
    return {"ref": S(str(p.reference)), "urn": S(str(p.urn)) if p.urn is not None else "", "depth": I(p.depth),
            "tree": docgen.flat(p.resource)}


def nest(d, path=()):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out += nest(v, path + (k,))
        else:
            out.append({"p": list(path + (k,)), "t": S(v)})
    return out


def execute(scn):
    from MyCapytain.common.reference import CtsReference
    from MyCapytain.common.constants import Mimetypes
    t = load(scn)
    ev = [{"op": "load", "tree": docgen.flat(t.resource), "depth": I(len(t.citation))}]
    cur = None

    def ref(x, as_str=False):
        return x if as_str else CtsReference(x)

    def node(r, simple=False, as_str=False):
        return t.getTextualNode(ref(r, as_str), simple=True) if simple else t.getTextualNode(ref(r, as_str))

    for op in scn["ops"]:
        k = op["op"]
        if k == "reffs":
            r, via, lv = op["ref"], op.get("via", "text"), op["lv"]
            e = {"op": "reffs", "ref": r, "lv": 1 if lv is None else lv, "via": via}
            if via == "text":
                if r:
                    o = obs(lambda: t.getReffs(level=lv, subreference=ref(r[0], op.get("str"))), enc_reffs(t))
                else:
                    o = obs(lambda: t.getReffs(level=lv) if lv != 1 or op.get("str") else t.getReffs(), enc_reffs(t))
            elif via == "valid":
                o = obs(lambda: t.getValidReff(level=lv, reference=CtsReference(r[0]) if r else None, _debug=bool(op.get("dbg"))), enc_reffs(t))
            elif via == "passage":      # a passage lists its own references
                o = obs(lambda: node(r[0]).getReffs(level=lv), enc_reffs(t))
            elif via == "other":        # a passage asked about another reference
                o = obs(lambda: node(op["host"]).getReffs(level=lv, subreference=ref(r[0], op.get("str"))), enc_reffs(t))
            elif via == "simple2":      # a simple passage asked about another reference
                rel = lv
                o = obs(lambda: node(op["host"], True).getReffs(level=rel, subreference=ref(r[0], op.get("str"))), enc_reffs(t))
                e["lv"] = rel + len(op["host"].split("."))
            else:                       # simple passage: levels are relative
                rel = lv
                o = obs(lambda: node(r[0], True).getReffs(level=rel), enc_reffs(t))
                e["lv"] = rel + len(r[0].split("@")[0].split("."))
            e["obs"] = o
            ev.append(e)
        elif k == "allreffs":
            ev.append({"op": k, "refs": [S(str(x)) for x in t.reffs]})
        elif k == "passage":
            via = op.get("via", "text")
            e = dict(op)
            e["simple"] = bool(op.get("simple"))
            if via == "passage":
                o = obs(lambda: node(op["host"], op.get("hsimple", False)).getTextualNode(ref(op["ref"], op.get("str"))), enc_pass)
            elif via == "list":
                o = obs(lambda: t.getTextualNode(op["ref"].split(".")), enc_pass)
            else:
                o = obs(lambda: node(op["ref"], op.get("simple"), op.get("str")), enc_pass)
            e["obs"] = o
            ev.append(e)
        elif k == "nav":
            e = dict(op)
            p = None
            try:
                p = node(op["ref"], op.get("simple"))
            except Exception:
                pass
            if p is not None:
                one = lambda x: O(x, lambda y: S(str(y)))
                e["obs"] = {
                    "sib": obs(lambda: (p.siblingsId, (p.prevId, p.nextId))[op.get("via", 0)], lambda z: {"prev": one(z[0]), "next": one(z[1])}),
                    "kids": obs(lambda: (p.childIds, p.firstId, p.lastId), lambda z: {"ids": [S(str(y)) for y in z[0]], "first": one(z[1]), "last": one(z[2])})}
            else:
                e["obs"] = {"sib": {"k": "x", "v": []}, "kids": {"k": "x", "v": []}}
            ev.append(e)
        elif k == "textnav":
            ids = t.childIds
            ev.append({"op": k, "ids": [S(str(x)) for x in ids], "first": O(t.firstId, lambda y: S(str(y))), "last": O(t.lastId, lambda y: S(str(y)))})
        elif k == "goto":
            o = obs(lambda: node(op["ref"]), lambda p: p)
            cur = o["v"] if o["k"] == "v" else None
            ev.append({"op": k, "ref": op["ref"], "obs": obs(lambda: enc_pass(cur), lambda x: x) if o["k"] == "v" else o})
        elif k == "move":
            nxt = [None]

            def go():
                nxt[0] = getattr(cur, op["mv"])
                return nxt[0]
            o = obs(go, lambda p: O(p, enc_pass)) if cur is not None else {"k": "x", "v": []}
            if nxt[0] is not None:
                cur = nxt[0]
            ev.append({"op": k, "mv": op["mv"], "obs": o})
        elif k == "kids":
            o = obs(lambda: list(cur.children), lambda ps: [enc_pass(p) for p in ps]) if cur is not None else {"k": "x", "v": []}
            ev.append({"op": k, "obs": o})
        elif k == "export":
            p = node(op["ref"][0], op["simple"]) if op["ref"] else t
            excl = op["excl"]
            if op.get("glue") is not None:
                p.plaintext_string_join = op["glue"]
            kw = {"exclude": excl} if excl or op.get("kw") else {}
            e = {"op": k, "ref": op["ref"], "simple": op["simple"], "excl": excl, "glue": S(p.plaintext_string_join)}
            e["etree"] = docgen.flat(p.export(Mimetypes.PYTHON.ETREE))
            back = lambda s: docgen.flat(etree.fromstring(s))
            e["xml"] = back(p.export(Mimetypes.XML.Std))
            e["tei"] = back(p.export(Mimetypes.XML.TEI))
            e["str"] = back(str(p))
            e["tostr"] = back(p.tostring(encoding=str))
            e["plain"] = S(p.export(Mimetypes.PLAINTEXT, **kw))
            e["dflt"] = S(p.export(**kw))
            e["text"] = S(p.text)
            e["nested"] = obs(lambda: nest(p.export(Mimetypes.PYTHON.NestedDict, **kw)), lambda x: x)
            ev.append(e)
        elif k == "source":
            ev.append({"op": k, "tree": docgen.flat(t.resource)})
        else:
            raise ValueError(k)
    return {"id": scn["id"], "doc": scn["doc"], "sch": scn["sch"], "urn": scn.get("urn", ""), "ev": ev}


def base(rng, n, cls, **kw):
    how = rng.choice(["str", "str", "file", "etree", "etree", "objectify"])
    d = docgen.document(rng, blanks=True, **kw)
    d.update(id="r%d" % n, how=how,
             urn=rng.choice(["", "urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:greekLit:tlg0012.tlg001.opp-grc1"]),
             given=rng.random() < .2)
    d["class"] = cls
    return d


def small(shape, n, rng):
    """ the document of a shape of MCText, with notes and comments sprinkled """
    sch = [[{"sep": "/", "tag": t, "ca": [], "ph": "n" if t == "tei:div" else "", "joined": False} for t in ("tei:TEI", "tei:text", "tei:div")],
           [{"sep": "/", "tag": "tei:l", "ca": [], "ph": "n", "joined": False}]]
    g = docgen.Gen(rng, blanks=True)
    g.add(0, "e", "tei:TEI")
    g.add(1, "e", "tei:refsDecl", [("n", "CTS")])
    for k, p in reversed(list(enumerate(docgen.refsdecl(sch)))):
        g.add(2, "e", "tei:cRefPattern", [("n", "lv%d" % (k + 1)), ("matchPattern", "x"), ("replacementPattern", "#xpath(%s)" % p)])
    g.add(1, "e", "tei:text")
    for i, m in enumerate(shape):
        g.add(2, "e", "tei:div", [("n", str(i + 1))])
        g.text(3, .3)
        g.noise(3, .3)
        for j in range(m):
            g.add(3, "e", "tei:l", [("n", str(j + 1))])
            g.content(4)
            g.text(3, .3)
            g.noise(3, .15)
        g.text(2, .3)
    return {"doc": g.items, "sch": sch, "id": "mc%d" % n, "class": "every small text", "how": rng.choice(["str", "etree"]),
            "urn": "urn:cts:a:b.c.d", "given": False}


def starts(mc):
    """ shape -> references """
    out = {}
    for h in mc:
        out.setdefault(tuple(h["shape"]), set()).add(h["start"])
    return sorted((k, sorted(v)) for k, v in out.items())
