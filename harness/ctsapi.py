"""A CTS endpoint in memory (below `requests`), and clients questioning it (C16, C17)."""
import contextlib
import docgen
from fw import S, O, I, L, B, obs
from urllib.parse import urlsplit, parse_qsl
from xml.sax.saxutils import escape, quoteattr

TI = "http://chs.harvard.edu/xmlns/cts"
FAULTS = ["500", "404", "503", "bad", "cut", "drop", "slow"]


# ------------------------------------------------------------------ the text held by the endpoint
class Text(object):
    def __init__(self, scn):
        self.scn, self.items = scn, scn["doc"]
        root, levels = docgen.units(scn)
        els = [i for i, it in enumerate(self.items) if it["k"] == "e"]
        pos = {x: els[n] for n, x in enumerate(e for e in root.iter() if isinstance(e.tag, str))}
        self.levels = [[(list(p), pos[e]) for p, e in lv] for lv in levels]

    def node(self, parts):
        if not 1 <= len(parts) <= len(self.levels):
            return None
        return next((i for p, i in self.levels[len(parts) - 1] if p == parts), None)

    def last(self, i):
        j = i + 1
        while j < len(self.items) and self.items[j]["d"] > self.items[i]["d"]:
            j += 1
        return j - 1

    def kept(self, a, b):
        anc, d = set(), self.items[a]["d"]
        for j in range(a - 1, -1, -1):
            if self.items[j]["d"] < d and self.items[j]["k"] == "e":
                anc.add(j)
                d = self.items[j]["d"]
        return anc | set(range(a, self.last(b) + 1))

    def ends(self, ref):
        a, _, b = ref.partition("-")
        a, b = a.split("."), (b or a).split(".")
        return a, b, self.node(a), self.node(b)

    def reffs(self, ref, lv):
        if not 1 <= lv <= len(self.levels):
            return []
        us = self.levels[lv - 1]
        if ref:
            a, b, na, nb = self.ends(ref)
            if "-" in ref:
                keep = self.kept(na, nb)
                c = 0
                while c < min(len(a), len(b)) and a[c] == b[c]:
                    c += 1
                us = [u for u in us if u[1] in keep and u[0][:c] == a[:c]]
            else:
                us = [u for u in us if u[0][:len(a)] == a]
        return [".".join(p) for p, _ in us]

    def siblings(self, ref):
        a, b, _, _ = self.ends(ref)
        if len(a) != len(b):
            return None
        us = [p for p, _ in self.levels[len(a) - 1]]
        i, j = us.index(a), us.index(b)
        n = j - i + 1
        span = lambda x, y: None if x > y else ".".join(us[x]) if x == y else ".".join(us[x]) + "-" + ".".join(us[y])
        return span(max(0, i - n), i - 1), span(j + 1, min(len(us) - 1, j + n))

    def passage(self, ref):
        if not ref:
            return self.items
        a, b, na, nb = self.ends(ref)
        keep = self.kept(na, nb)
        return [self.items[i] for i in sorted(keep)]


class Endpoint(object):
    """ answers requests for one text; `faults` is the list of what happens to the n-th request """

    def __init__(self, scn):
        self.scn = scn
        self.text = Text(scn) if scn.get("doc") else None
        self.log, self.faults, self.served = [], [], []

    # -- below requests
    def send(self, adapter, request, **kw):
        import requests
        u = urlsplit(request.url)
        rec = {"ps": [[S(k), S(v)] for k, v in parse_qsl(u.query, keep_blank_values=True)], "st": "ok", "verb": S(request.method), "base": S("%s://%s%s" % (u.scheme, u.netloc, u.path))}
        self.log.append(rec)
        fault = self.faults.pop(0) if self.faults else ""
        if fault == "drop":
            rec["st"] = "drop"
            raise requests.exceptions.ConnectionError("refused")
        if fault == "slow":
            rec["st"] = "slow"
            raise requests.exceptions.ReadTimeout("slow")
        status, body = 200, ""
        failed = fault in ("500", "404", "503")
        if failed and (len(self.log) + len(request.url)) % 2:     # otherwise the body is what a success would bring
            body = "<error>not now</error>"
        elif "body" in self.scn:
            body = self.scn["body"]
        else:
            n = len(self.served)
            status, body = self.answer(dict(rec["ps"]))
            if fault:
                del self.served[n:]
            if fault == "bad":
                status, body = 200, "<html><body>Welcome<br></body></html>"
            if fault == "cut":
                status, body = 200, body[:len(body) * 2 // 3]
        status = int(fault) if failed else status
        rec["st"] = "ok" if status == 200 and not fault else fault or str(status)
        r = requests.Response()
        r.status_code, r.reason, r.url, r.request = status, "X", request.url, request
        cs = self.scn.get("charset")
        r.headers["Content-Type"] = self.scn.get("mime", "application/xml") + ("; charset=%s" % cs if cs else "")
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r._content = body.encode(cs or "utf-8")
        return r

    def labels(self, q):
        tag = {"groupname": "groupname", "title": "title", "label": "label", "description": "description"}
        return "".join("<%s%s%s>%s</%s%s>" % (self.p, tag[x["kind"]], ' xml:lang="%s"' % x["lang"][0] if x["lang"] else "", escape(x["tx"]), self.p, tag[x["kind"]]) for x in q)

    def citation(self):
        out, end = "", ""
        for k, c in enumerate(self.scn["cts"]):
            out += "<%scitation label=%s xpath=%s scope=%s>" % (self.p, quoteattr(c["name"]), quoteattr(c["xpath"]), quoteattr(c["scope"]))
            end = "</%scitation>" % self.p + end
        return out + end

    def answer(self, ps):
        t, scn = self.text, self.scn
        self.p = p = scn["prefix"] + ":" if scn["prefix"] else ""
        name, urn = ps.get("request", ""), ps.get("urn", "")
        tid, _, ref = urn.partition(scn["tid"])
        if tid != "" or not urn.startswith(scn["tid"]) or (ref and ref[0] != ":"):
            return 404, "<error/>"
        ref = ref[1:]
        if ref:
            a, b, na, nb = t.ends(ref)
            if na is None or nb is None:
                return 404, "<error/>"
        full = lambda r: "<%surn>%s</%surn>" % (p, escape(scn["tid"] + ":" + r), p)
        nl = "\n " if scn["noise"] else ""
        sib = lambda z: "<%sprevnext>" % p + "".join("<%s%s>%s%s</%s%s>" % (p, n, nl, full(v) if v else "", p, n) for n, v in zip(("prev", "next"), z)) + "</%sprevnext>" % p

        def psg():
            self.served.append(t.passage(ref))
            return "<%spassage>%s%s</%spassage>" % (p, nl, docgen.to_xml(t.passage(ref)), p)
        label = lambda: "<%slabel>%s%s</%slabel>" % (p, self.labels(scn["lab"]), self.citation(), p)
        if name == "GetValidReff":
            rs = t.reffs(ref, int(ps.get("level", "1")))
            if not rs and not scn["empty"]:
                return 404, "<error/>"
            reply = "<%sreff>%s</%sreff>" % (p, nl.join(full(r) for r in rs), p)
        elif name == "GetFirstUrn":
            rs = t.reffs(ref, (min(len(x.split(".")) for x in ref.split("-")) if ref else 0) + 1)
            reply = full(rs[0]) if rs else ""
        elif name == "GetPrevNextUrn":
            z = t.siblings(ref) if ref else None
            if z is None:
                return 400, "<error/>"
            reply = sib(z)
        elif name == "GetPassage":
            reply = full(ref) + psg()
        elif name == "GetPassagePlus":
            z = t.siblings(ref) if ref else None
            reply = full(ref) + label() + psg() + (sib(z) if z else "")
        elif name == "GetLabel":
            reply = full(ref) + label()
        else:
            return 400, "<error/>"
        req = "<%srequestName>%s</%srequestName><%srequestUrn>%s</%srequestUrn><%spsg>%s</%spsg>" % (p, name, p, p, escape(urn), p, p, ref, p)
        if name in ("GetValidReff", "GetPassage"):
            req += self.labels(scn["req"]) + (self.citation() if scn["citreq"] else "")
        note = "<!-- %s -->" % name if scn["noise"] else ""
        xml = '%s<%s%s xmlns%s="%s">%s<%srequest>%s</%srequest>%s<%sreply>%s%s</%sreply></%s%s>' % (
            scn["decl"], p, name, ":" + p[:-1] if p else "", TI, note, p, req, p, nl, p, nl, reply, p, p, name)
        return 200, xml


# ------------------------------------------------------------------ execution
def execute(scn):
    with served(scn) as ep:
        return run(scn, ep)


@contextlib.contextmanager
def served(scn):
    """ every request is answered by the endpoint of scn """
    import requests.adapters
    ep = Endpoint(scn)
    orig = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: ep.send(self, request, **kw)
    try:
        yield ep
    finally:
        requests.adapters.HTTPAdapter.send = orig


def call(scn, ep):
    from MyCapytain.retrievers.cts5 import HttpCtsRetriever
    from MyCapytain.common.reference import CtsReference
    c, a = scn["call"], scn["call"]["a"]
    r = HttpCtsRetriever(scn["endpoint"], inventory=c["dinv"][0]) if c["dinv"] else HttpCtsRetriever(scn["endpoint"])
    kw = {}
    m = c["m"]
    ref = lambda: CtsReference(a["ref"][0]) if scn.get("robj") else a["ref"][0]
    name = {"getTextualNode": "textId", "getSiblings": "textId", "getReffs": "textId", "getMetadata": "objectId"}.get(m, "urn")
    if a["urn"]:
        kw[name] = a["urn"][0]
    if a["inv"]:
        kw["inventory"] = a["inv"][0]
    if a["level"]:
        kw["level"] = int(a["level"][0])
    if a["ref"]:
        kw["subreference"] = ref()
    if a["context"]:
        kw["context"] = int(a["context"][0])
    if m == "getTextualNode":
        kw.update({"prevnext": True} if a["plus"] and scn.get("robj") else {"metadata": True} if a["plus"] else {})
    if scn.get("explicit") and m in ("getPassage", "getPassagePlus", "getCapabilities"):
        kw.setdefault("inventory", None)
    ep.faults = list(scn.get("faults", []))
    o = obs(lambda: getattr(r, m)(**kw))
    u = urlsplit(scn["endpoint"])
    return {"op": "call", "m": m, "a": a, "dinv": c["dinv"], "q": ep.log, "body": scn["body"], "base": "%s://%s%s" % (u.scheme, u.netloc, u.path),
            "eps": [[k, v] for k, v in parse_qsl(u.query)], "obs": o}


def enc(p):
    r = p.reference
    return {"ref": S(str(r)) if r is not None else "", "urn": S(str(p.urn)), "depth": I(p.depth) if p.depth is not None else 0, "tree": docgen.flat(p.resource), "plain": S(p.text)}


def run(scn, ep):
    if "call" in scn:
        return {"id": scn["id"], "doc": [], "ev": [call(scn, ep)]}
    from MyCapytain.retrievers.cts5 import HttpCtsRetriever
    from MyCapytain.resolvers.cts.api import HttpCtsResolver
    from MyCapytain.resources.texts.remote.cts import CtsText
    from MyCapytain.common.reference import CtsReference, URN
    from MyCapytain.common.constants import RDF_NAMESPACES
    from MyCapytain.common.constants import Mimetypes
    from rdflib.namespace import DC
    from lxml import etree
    import textops
    retr = HttpCtsRetriever(scn["endpoint"])
    res = HttpCtsResolver(retr)
    tid = scn["tid"]
    H = {"text": None, "cur": None}
    ev = [{"op": "serve"}]

    def sub(op):
        if not op["ref"]:
            return None
        r = op["ref"][0]
        f = op.get("form", "str")
        return {"str": lambda: r, "obj": lambda: CtsReference(r), "urn": lambda: URN(tid + ":" + r), "full": lambda: tid + ":" + r, "list": lambda: r.split(".")}[f]()
    one = lambda x: O(x, lambda y: S(str(y)))
    pair = lambda z: {"prev": one(z[0]), "next": one(z[1])}
    ids = lambda z: [S(str(y)) for y in z]
    for op in scn["ops"]:
        k = op["op"]
        e = dict(op)
        ep.log, ep.served, ep.faults = [], [], list(op.get("faults", []))
        h = H.get(op.get("h", "text" if op["op"] == "allreffs" else "cur"))
        new = [None]

        def keep(p):
            new[0] = p
            return p
        if h is None and k not in ("open", "rnode", "rplus", "rsib", "rreffs"):
            continue
        if (op.get("which") in ("prevId", "nextId", "siblingsId", "parentId") or op.get("mv") in ("next", "prev", "parent")) and getattr(h, "reference", None) is None:
            continue  # the neighbours of nothing
        if k == "allreffs" and h.urn.reference is not None:
            continue  # every level of a text
        if k == "valid" and not op["ref"]:
            e["lv"] = op["lv"] = max(op["lv"], (h.urn.reference.depth if h.urn.reference else 0) + 1)
        if k == "open":
            e["obs"] = obs(lambda: keep(CtsText(urn=(URN if op.get("form") == "obj" else str)(tid + (":" + op["ref"][0] if op["ref"] else "")), retriever=retr)), lambda p: 1)
            if new[0] is not None:
                H["text"], H["cur"] = new[0], None
        elif k in ("rnode", "rplus"):
            kw = {} if k == "rnode" else {["metadata", "prevnext"][len(ev) % 2]: True}
            e["obs"] = obs(lambda: enc(keep(res.getTextualNode(tid, subreference=sub(op), **kw) if op["ref"] else res.getTextualNode(tid, **kw))), lambda x: x)
        elif k == "rsib":
            e["op"] = "pn"
            e["obs"] = obs(lambda: res.getSiblings(tid, sub(op)), pair)
        elif k == "rreffs":
            e["op"], e["h"] = "reffs", "none"
            e["obs"] = obs(lambda: res.getReffs(tid, level=op["lv"], subreference=sub(op)) if op["ref"] else res.getReffs(tid, op["lv"]), ids)
        elif k == "node":
            e["obs"] = obs(lambda: enc(keep(h.getTextualNode(sub(op)) if op["ref"] else h.getTextualNode())), lambda x: x)
        elif k == "plus":
            e["obs"] = obs(lambda: enc(keep(h.getPassagePlus(sub(op)) if op["ref"] else h.getPassagePlus())), lambda x: x)
        elif k == "reffs":
            e["obs"] = obs(lambda: h.getReffs(op["lv"], sub(op)) if op["ref"] else h.getReffs(level=op["lv"]), ids)
        elif k == "valid":
            # the deepest level, once the scheme is known
            lv = -1 if op["lv"] == len(scn["sch"]) and h.citation.is_set() and len(ev) % 3 else op["lv"]
            e["obs"] = obs(lambda: h.getValidReff(lv, sub(op)) if op["ref"] else h.getValidReff(level=lv), ids)
        elif k == "allreffs":
            e["obs"] = obs(lambda: H["text"].reffs, ids)
        elif k == "pn":
            e["obs"] = obs(lambda: H["text"].getPrevNextUrn(sub(op)), pair)
        elif k == "fu":
            e["obs"] = obs(lambda: h.getFirstUrn(sub(op)) if op["ref"] else h.getFirstUrn(), one)
        elif k == "id":
            w = op["which"]
            e["obs"] = obs(lambda: getattr(h, w), {"siblingsId": pair, "childIds": ids}.get(w, one))
        elif k == "move":
            e["obs"] = obs(lambda: [enc(p) for p in [keep(getattr(h, op["mv"]))] if p is not None], lambda x: x)
        elif k == "kids":
            e["obs"] = obs(lambda: [enc(p) for p in list(h.children)], lambda x: x)
        elif k == "export":
            mt = {"plain": Mimetypes.PLAINTEXT, "xml": Mimetypes.XML.Std, "tei": Mimetypes.XML.TEI, "etree": Mimetypes.PYTHON.ETREE, "dict": Mimetypes.PYTHON.NestedDict}[op["fmt"]]
            if op["h"] == "cur":
                e["tree"] = docgen.flat(h.resource)
            form = {"plain": S, "dict": textops.nest, "etree": docgen.flat}.get(op["fmt"], lambda z: docgen.flat(etree.fromstring(z)))
            e["obs"] = obs(lambda: form(h.export(mt, **({"exclude": op["excl"]} if op["excl"] else {}))), lambda z: z)
        elif k == "label":
            e["obs"] = obs(h.getLabel, lambda m: 1)
        elif k == "meta":
            C = RDF_NAMESPACES.CTS
            out, alt = [], []
            for kind, key, ck in (("groupname", DC.creator, C.groupname), ("title", DC.title, C.title), ("label", DC.subject, C.label), ("description", DC.description, C.description)):
                out += [[kind, S(o.language), S(str(o))] for o in h.metadata.get(key)]
                alt += [[kind, S(o.language), S(str(o))] for o in h.metadata.get(ck)]
            e["res"] = sorted(out) if sorted(out) == sorted(alt) else [["!!", "cts and dc differ", str(alt)]]
            for kind, lang, tx in out:
                got = {"groupname": h.get_creator, "title": h.get_title, "label": h.get_subject, "description": h.get_description}[kind](lang)
                if [kind, lang, S(str(got))] not in e["res"]:
                    e["res"].append(["!!", lang, S(str(got))])
        elif k == "cit":
            e["res"] = [[S(c.name), S(c.refsDecl)] for c in h.citation] if h.citation.is_set() else []
        e["q"] = ep.log
        e["served"] = ep.served
        if "obs" in e and e["obs"]["k"] == "v" and new[0] is not None and k != "open":
            H["cur"] = new[0]
        e.pop("faults", None)
        ev.append(e)
    return {"id": scn["id"], "doc": scn["doc"], "sch": scn["sch"], "tid": tid, "req": scn["req"], "lab": scn["lab"], "citreq": scn["citreq"], "empty": scn["empty"], "pats": [[c["name"], p] for c, p in zip(scn["cts"], scn["pats"])], "ev": ev}


# ------------------------------------------------------------------ scenarios
WORDS = ["Martial", "Épigrammes", "a & b", "Ἰλιάς", "x < y", "On  Nature", "1", "urn:a"]


def rlabels(rng):
    out = []
    for kind in ("groupname", "title", "label", "description"):
        for l in rng.sample([["eng"], ["lat"], ["fre"], []], rng.choice([0, 1, 1, 2])):
            out.append({"kind": kind, "lang": l, "tx": rng.choice(WORDS)})
    return out


def setting(rng, doc, sch):
    import re
    pats = docgen.refsdecl(sch)
    cts, before = [], 0
    for k, p in enumerate(pats):
        q = re.sub(r"\$\d+", "?", p)
        cut = len(re.sub(r"\$\d+", "?", pats[k - 1])) if k else q.rindex("/", 0, q.index("?"))
        if not k and q[cut - 1] == "/":
            cut -= 1
        cts.append({"name": "lv%d" % (k + 1), "xpath": q[cut:], "scope": q[:cut]})
    return {"doc": doc, "sch": sch, "pats": pats, "cts": cts, "tid": rng.choice(["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:greekLit:tlg0012.tlg001.opp-grc1", "urn:cts:a:b.c.d", "urn:cts:a:b.c"]),
            "req": rlabels(rng) if rng.random() < .7 else [], "lab": rlabels(rng), "citreq": rng.random() < .4, "empty": rng.random() < .5, "noise": rng.random() < .4,
            "prefix": rng.choice(["ti", "CTS", ""]), "decl": rng.choice(["", '<?xml version="1.0" encoding="UTF-8"?>', '<?xml version="1.0"?>\n']), "charset": rng.choice(["utf-8", None]), "mime": rng.choice(["application/xml", "text/xml"]),
            "endpoint": rng.choice(["http://localhost/cts", "https://cts.example.org:8080/exist/rest/CTS.xq", "http://x.org/api/cts/"])}


def history(rng, scn, n, faults=.15):
    root, levels = docgen.units(scn)
    un = [(list(p)) for lv in levels for p, _ in lv]

    def ref(rg=.25, unknown=.05):
        x = rng.random()
        if x < rg:
            return docgen.pick_range(rng, root, levels)
        if x < rg + unknown:
            return rng.choice(["99", "1.99", "9-99"])
        return ".".join(rng.choice(un))
    depth = lambda r: min(len(x.split(".")) for x in r.split("-"))
    ops = [{"op": "open", "ref": [] if rng.random() < .8 else [ref(0, 0)], "form": rng.choice(["str", "obj"])}]
    own = ops[0]["ref"]
    cur = own
    D = len(scn["sch"])
    for _ in range(n):
        k = rng.choice(["rnode", "rplus", "rsib", "rreffs", "node", "node", "plus", "reffs", "valid", "allreffs", "pn", "fu", "id", "id", "id", "id", "move", "move", "move", "kids", "label", "meta", "meta", "cit", "export", "export"])
        op = {"op": k, "ref": []}
        if rng.random() < faults:
            op["faults"] = [rng.choice(["", "", rng.choice(FAULTS)]) for _ in range(rng.randint(0, 2))] + [rng.choice(FAULTS)]
        h = rng.choice(["text", "cur"])
        hold = own if h == "text" else cur
        if k in ("rnode", "rplus"):
            op["ref"] = [ref()] if rng.random() < .85 else []
            op["form"] = rng.choice(["str", "obj"])
            cur = op["ref"]
        elif k == "rsib":
            op.update(ref=[ref(.2)], form=rng.choice(["str", "obj"]))
        elif k == "rreffs":
            r = [ref()] if rng.random() < .6 else []
            op.update(ref=r, form=rng.choice(["str", "obj"]), lv=rng.randint(1, max(1, D - (depth(r[0]) if r else 0))) + (rng.random() < .1))
        elif k in ("node", "plus"):
            r = [ref()] if rng.random() < .85 else []
            if k == "plus":
                form = rng.choice(["str", "obj"])
            else:
                form = rng.choice(["str", "obj", "urn", "full"] + (["list"] if r and "-" not in r[0] else []))
            op.update(ref=r, form=form, h=h)
            cur = r or hold
        elif k == "reffs":
            r = [ref()] if rng.random() < .5 else []
            d = depth(r[0]) if r else depth(hold[0]) if hold else 0
            op.update(ref=r, form=rng.choice(["str", "obj"]), h=h, lv=rng.randint(1, max(1, D - d)) + (rng.random() < .1))
        elif k == "valid":
            r = [ref()] if rng.random() < .5 else []
            d = depth(r[0]) if r else depth(hold[0]) if hold else 0
            op.update(ref=r, form=rng.choice(["str", "obj"]), h=h, lv=rng.randint(d + 1, max(d + 1, D)))
        elif k == "pn":
            op.update(ref=[ref(.2)], form=rng.choice(["str", "obj"]))
        elif k == "fu":
            op.update(ref=[ref(.1)] if rng.random() < .6 else [], form=rng.choice(["str", "full"]), h=h)
        elif k == "id":
            if h == "text" or not cur:
                op.update(h=h, which=rng.choice(["childIds", "firstId", "lastId"]))
            else:
                op.update(h="cur", which=rng.choice(["prevId", "nextId", "siblingsId", "parentId", "childIds", "firstId", "lastId"]))
        elif k == "move":
            if h == "text" or not cur:
                op.update(h=h, mv=rng.choice(["first", "last"]))
            else:
                op.update(h="cur", mv=rng.choice(["next", "prev", "first", "last", "parent"]))
        elif k in ("kids", "label", "meta", "cit"):
            op["h"] = h
        elif k == "export":
            op.update(h=h, fmt=rng.choice(["plain", "xml", "tei", "etree", "dict", "dict", "dict"]), excl=rng.choice([[], [], ["tei:note"], ["tei:note", "tei:hi"], ["tei:name"]]))
        if k in ("meta", "cit"):
            op.pop("faults", None)
        ops.append(op)
    return ops
