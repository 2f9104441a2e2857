"""A DTS endpoint in memory (below `requests`), and clients questioning it (C18, C19, C20, C23)."""
import contextlib
import json
import docgen
import ctsapi
from fw import S, O, I, L, B, obs
from urllib.parse import urlsplit, parse_qsl, urlencode as _enc, urljoin

HYD, DTS, DCT = "https://www.w3.org/ns/hydra/core#", "https://w3id.org/dts/api#", "http://purl.org/dc/terms/"
EX = "http://example.org/ns#"
FAULTS = ["500", "404", "503", "bad", "cut", "drop", "slow"]
JSONFAULTS = FAULTS + ["empty"]


def urlencode(q):
    return _enc([tuple(x) for x in q])


# ------------------------------------------------------------------ URIs
def uri(sch="", host="", abs_=False, segs=(), qs=()):
    return {"sch": sch, "host": host, "abs": abs_, "segs": list(segs), "qs": [list(x) for x in qs]}


def text(u):
    out = (u["sch"] + ":" if u["sch"] else "") + ("//" + u["host"] if u["host"] else "") + ("/" if u["abs"] else "") + "/".join(u["segs"])
    return out + ("?" + urlencode(u["qs"]) if u["qs"] else "")


def routes(rng):
    """ the entry point and its three routes, told apart by their path or by a parameter """
    entry = uri(rng.choice(["http", "https"]), rng.choice(["localhost", "dts.example.org:8080", "h"]), True, rng.choice([[""], ["api"], ["api", "dts", ""], ["api", "dts"], ["a.b", "c~d", ""]]),
                [["v", "1"]] if rng.random() < .1 else [])
    form = rng.choice(["rel", "rel", "dot", "abs", "query", "flag", "full", "host", "net"])
    if form == "net":  # //host/path
        r = {n: uri("", "api.example.org", True, ["x", n]) for n in ("collections", "documents", "navigation")}
    elif form == "flag":  # /api?documents
        r = {n: uri(segs=[], qs=[[n, ""]]) for n in ("collections", "documents", "navigation")}
    elif form == "query":
        r = {n: uri(segs=[], qs=[["api", n]] + ([["k", "é b"]] if rng.random() < .3 else [])) for n in ("collections", "documents", "navigation")}
    else:
        slash = rng.choice([[], [""]])
        q = [["key", "a b"]] if rng.random() < .2 else []
        mk = {"rel": lambda n: uri(segs=[n] + slash, qs=q), "dot": lambda n: uri(segs=rng.choice([["."], [".."], ["..", "x"]]) + [n] + slash, qs=q), "abs": lambda n: uri(abs_=True, segs=["dts", n] + slash, qs=q),
              "full": lambda n: uri(entry["sch"], entry["host"], True, ["api", "v1", n] + slash, qs=q), "host": lambda n: uri("https", n + ".example.net", True, ["api", n] + slash, qs=q)}[form]
        r = {n: mk(n) for n in ("collections", "documents", "navigation")}
    return {"entry": entry, "routes": r}


# ------------------------------------------------------------------ JSON-LD
def strip(body):
    """ the reply with a member which has no reference (None when it has no member) """
    try:
        d = json.loads(body)
    except ValueError:
        return None
    found = []

    def go(x):
        for k, v in x.items() if isinstance(x, dict) else enumerate(x):
            if k != "@context" and isinstance(v, (dict, list)):
                go(v)
            elif isinstance(x, dict) and k.replace("#", ":").split(":")[-1] in ("ref", "start", "end"):
                found.append((x, k))
    if isinstance(d, (dict, list)):
        go(d)
    if not found:
        return None
    x, k = found[len(body) % len(found)]
    del x[k]
    return json.dumps(d)


def statement(rng, rich=True):
    k = rng.choice([DCT + "title", DCT + "creator", DCT + "date", EX + "p", EX + "sender"])
    x = rng.random()
    if x < .45:
        return {"k": k, "t": "lit", "s": rng.choice(["Avertissement", "Épître", "a \"b\"", "1", "Lettre 1"]), "lang": []}
    if x < .8:
        return {"k": k, "t": "lit", "s": rng.choice(["Titulus", "Ἰλιάς", "x"]), "lang": [rng.choice(["eng", "lat", "fre"])]}
    if x < .9 and rich:
        return {"k": k, "t": "uri", "s": rng.choice(["http://viaf.org/1", "http://orcid.org/0000"]), "lang": []}
    return {"k": k, "t": "int", "s": str(rng.randint(0, 2000)), "lang": []}


def statements(rng, n):
    out = []
    for _ in range(n):
        s = statement(rng)
        if s not in out:
            out.append(s)
    return out


class Ld(object):
    """ writes JSON-LD in one of the equivalent ways """

    def __init__(self, way):
        self.way = way
        self.ctx = {"p": {"@vocab": HYD, "dts": DTS, "dct": DCT, "ex": EX}, "q": {"@vocab": HYD, "d": DTS, "terms": DCT, "e": EX}, "h": {"hydra": HYD, "dts": DTS, "dct": DCT, "ex": EX}, "f": {"@vocab": HYD}}[way]

    def k(self, full):
        if self.way == "f" and not full.startswith(HYD):
            return full
        for p, ns in self.ctx.items():
            if full.startswith(ns):
                return full[len(ns):] if p == "@vocab" else p + ":" + full[len(ns):]
        return full

    def obj(self, pairs, top=True):
        o = {"@context": self.ctx} if top else {}
        for k, v in pairs:
            o[k if k[0] == "@" else self.k(k)] = v
        return o

    def value(self, s):
        return {"lit": lambda: {"@value": s["s"], "@language": s["lang"][0]} if s["lang"] else s["s"], "uri": lambda: {"@id": s["s"]}, "int": lambda: int(s["s"])}[s["t"]]()

    def metadata(self, meta):
        out = []
        for name, keep in (("dublincore", lambda k: k.startswith(DCT)), ("extensions", lambda k: not k.startswith(DCT))):
            d = {}
            for s in meta:
                if keep(s["k"]):
                    d.setdefault(self.k(s["k"]), []).append(self.value(s))
            if d:
                out.append((DTS + name, {k: v[0] if len(v) == 1 and self.way != "q" else v for k, v in d.items()}))
        return out

    def ref(self, r):
        ps = [(DTS + "ref", r["s"])] if not r["e"] else [(DTS + "start", r["s"]), (DTS + "end", r["e"][0])]
        if r["type"]:
            ps.append((DTS + "citeType", r["type"][0]))
        return self.obj(ps + self.metadata(r["meta"]), False)


# ------------------------------------------------------------------ the endpoint
class Endpoint(object):
    def __init__(self, scn):
        self.scn = scn
        self.log, self.faults, self.served, self.book = [], [], [], None
        self.text = ctsapi.Text(scn) if scn.get("doc") else None
        self.ld = Ld(scn.get("way", "p"))
        base = text(scn["entry"])
        self.base = self.split(base)
        self.uris = [(n, self.split(urljoin(base, text(u)))) for n, u in scn["routes"].items()]

    @staticmethod
    def split(u):
        u = urlsplit(u)
        return "%s://%s%s" % (u.scheme, u.netloc, u.path or "/"), parse_qsl(u.query, keep_blank_values=True)

    def route(self, base, ps):
        for n, (b, q) in self.uris:
            if b == base and all(x in ps for x in q):
                return n, [x for x in ps if x not in q]
        if base == self.base[0] and sorted(ps) == sorted(self.base[1]):
            return "entry", []
        return None, []

    def send(self, adapter, request, **kw):
        import requests
        base, ps = self.split(request.url)
        rec = {"base": S(base), "ps": [[S(k), S(v)] for k, v in ps], "st": "ok", "verb": S(request.method), "json": "ld+json" in request.headers.get("Accept", "")}
        self.log.append(rec)
        fault = self.faults.pop(0) if self.faults else ""
        if fault == "drop":
            rec["st"] = "drop"
            raise requests.exceptions.ConnectionError("refused")
        if fault == "slow":
            rec["st"] = "slow"
            raise requests.exceptions.ReadTimeout("slow")
        headers = {}
        failed, kind = fault in ("500", "404", "503"), (len(self.log) + len(request.url)) % 3
        if failed and kind:
            body, ctype = '{"error": 1}' if kind == 1 else '{"@context": "http://www.w3.org/ns/hydra/context.jsonld", "@type": "Status", "statusCode": %s, "title": "no"}' % fault, "application/json"
        else:                                                      # the body may be what a success would bring
            n = len(self.served)
            name, own = self.route(base, ps)
            status, body, ctype = self.answer(name, dict(own), headers)
            if fault:
                del self.served[n:]
            if fault == "bad":
                body = "<html><body>Welcome<br></body></html>"
            elif fault == "odd" and strip(body) is not None:
                body = strip(body)
            elif fault in ("cut", "odd"):
                body = body[:len(body) * 2 // 3]
            elif fault == "empty":
                body = "{}" if "json" in ctype else ""
        status = int(fault) if failed else status
        rec["st"] = "ok" if status == 200 and not fault else fault or str(status)
        r = requests.Response()
        r.status_code, r.reason, r.url, r.request = status, "X", request.url, request
        r.headers["Content-Type"] = ctype
        r.headers.update(headers)
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        xml = body.startswith("<") and "json" not in ctype
        r._content = body.encode(self.scn.get("bytes", "utf-8") if xml else "utf-8", "xmlcharrefreplace")
        return r

    def answer(self, name, ps, headers):
        scn = self.scn
        j = lambda o: (200, json.dumps(o, ensure_ascii=bool(len(self.log) % 2)), scn.get("ctype", "application/ld+json"))
        if name == "entry":
            return j(dict({"@context": "/dts/api/contexts/EntryPoint.jsonld", "@id": text(scn["entry"]), "@type": "EntryPoint"}, **{n: text(u) for n, u in scn["routes"].items()}))
        if "body" in scn and name:
            return 200, scn["body"], "application/ld+json"
        if name == "collections":
            return self.collection(ps, j)
        if name == "navigation":
            return self.navigation(ps, j)
        if name == "documents":
            return self.document(ps, headers)
        return 404, "no such route", "text/plain"

    def view(self, name, ps, p, n):
        """ the view of page p of n """
        def to(k):
            q = [[x, v] for x, v in ps.items() if x != "page"]
            q.insert(0 if self.scn.get("pagefirst") else len(q), ["page", str(k)])
            if self.scn.get("perpage"):
                q.insert(0, ["per_page", "7"])
            return urljoin(self.scn.get("viewbase", "/x/"), name) + "?" + urlencode(q)
        v = [("@id", to(p)), ("@type", "PartialCollectionView"), (HYD + "first", to(1)), (HYD + "last", to(n))]
        if p > 1:
            v.append((HYD + "previous", to(p - 1)))
        if p < n:
            v.append((HYD + "next", to(p + 1)))
        return self.ld.obj(v, False)

    def navigation(self, ps, j):
        scn, ld = self.scn, self.ld
        if self.book is not None:
            pages, types, level = self.book["pages"], self.book["types"], self.book["level"]
        else:
            t = self.text
            if ps.get("id") != scn["tid"]:
                return 404, "", "text/plain"
            ref = ps.get("ref") or (ps["start"] + "-" + ps["end"] if "start" in ps and "end" in ps else "")
            if ref and None in t.ends(ref)[2:]:
                return 404, "", "text/plain"
            d = min(len(x.split(".")) for x in ref.split("-")) if ref else 0
            lv = d + int(ps.get("level", "1"))
            rs = [{"s": r, "e": [], "type": [], "meta": []} for r in t.reffs(ref, lv)]
            per = scn["per"]
            pages = [rs[i:i + per] for i in range(0, len(rs), per)] or [[]]
            types, level = [["lv%d" % lv]] * len(pages), lv
        p = int(ps.get("page", "1"))
        if not 1 <= p <= len(pages):
            return 404, "", "text/plain"
        type_ = types[p - 1]
        o = [("@id", "/nav?x=1"), (DTS + "citeDepth", 3), (DTS + "level", level)] + ([(DTS + "citeType", type_[0])] if type_ else [])
        if pages[p - 1] or scn.get("nomember"):
            o.append((HYD + "member", [ld.ref(r) for r in pages[p - 1]]))
        if len(pages) > 1 or scn.get("oneview"):
            o.append((HYD + "view", self.view("navigation", ps, p, len(pages))))
        return j(ld.obj(o))

    def document(self, ps, headers):
        t, scn = self.text, self.scn
        if ps.get("id") != scn["tid"]:
            return 404, "", "text/plain"
        ref = ps.get("ref") or (ps["start"] + "-" + ps["end"] if "start" in ps and "end" in ps else "")
        if ref and None in t.ends(ref)[2:]:
            return 404, "", "text/plain"
        links = []
        to = lambda r: scn["linkbase"] + "documents?" + urlencode([["id", scn["tid"]]] + ([] if not r else [["start", r.split("-")[0]], ["end", r.split("-")[1]]] if "-" in r else [["ref", r]]))
        if ref:
            z = t.siblings(ref)
            if z:
                links += [(n, to(v)) for n, v in zip(("prev", "next"), z) if v]
                us = t.levels[len(ref.split("-")[0].split(".")) - 1]
                links += [("first", to(".".join(us[0][0]))), ("last", to(".".join(us[-1][0])))]
            a, b = ref.split("-")[0].split("."), ref.split("-")[-1].split(".")
            pa, pb = a[:-1], b[:-1]
            up = "" if not pa or not pb else ".".join(pa) if pa == pb else ".".join(pa) + "-" + ".".join(pb)
            if up or scn.get("uptop"):
                links.append(("up", to(up)))
        links.append(("collection", scn["linkbase"] + "collections?" + urlencode([["id", scn["tid"]]])))
        if scn.get("shuffle"):
            links.reverse()
        headers["Link"] = ", ".join('<%s>; rel="%s"' % (u, n) for n, u in links)
        self.served.append(t.passage(ref))
        return 200, scn["decl"] + docgen.to_xml(t.passage(ref)), scn["doctype"]

    # -- collections: scn["colls"] = {id: record}
    def summary(self, r, top):
        ps = [("@id", r["id"]), ("@type", (HYD if self.ld.way == "h" else "") + r["type"]), (HYD + "title", r["title"]), (HYD + "totalItems", len(r["kids"]))]
        if r["desc"]:
            ps.append((HYD + "description", r["desc"][0]))
        if top or self.scn.get("wide"):
            ps += self.ld.metadata(r["meta"])
            if r["depth"]:
                ps.append((DTS + "citeDepth", r["depth"][0]))
            if r["cite"]:
                ps.append((DTS + "citeStructure", [self.cite(c) for c in r["cite"]]))
            elif len(r["id"]) % 2:
                ps.append((DTS + "citeStructure", []))
        return ps

    def cite(self, c):
        return self.ld.obj([(DTS + "citeType", c["name"])] + ([(DTS + "citeStructure", [self.cite(k) for k in c["kids"]])] if c["kids"] else []), False)

    def collection(self, ps, j):
        scn, ld = self.scn, self.ld
        by = {r["id"]: r for r in scn["colls"]}
        i = ps.get("id", scn["colls"][0]["id"])
        if i not in by:
            return 404, "", "text/plain"
        nav = ps.get("nav", "children")
        ids = by[i]["kids"] if nav == "children" else [r["id"] for r in scn["colls"] if i in r["kids"]]
        per = scn["per"]
        pages = [ids[k:k + per] for k in range(0, len(ids), per)] or [[]]
        p = int(ps.get("page", "1"))
        if not 1 <= p <= len(pages):
            return 404, "", "text/plain"
        self.served.append([i, nav, p, pages[p - 1]])
        o = self.summary(by[i], True)
        if pages[p - 1] or scn.get("nomember"):
            o.append((HYD + "member", [ld.obj(self.summary(by[k], False), False) for k in pages[p - 1]]))
        if len(pages) > 1 or scn.get("oneview"):
            o.append((HYD + "view", self.view("collections", ps, p, len(pages))))
        return j(ld.obj(o))


@contextlib.contextmanager
def served(scn):
    import requests.adapters
    ep = Endpoint(scn)
    orig = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: ep.send(self, request, **kw)
    try:
        yield ep
    finally:
        requests.adapters.HTTPAdapter.send = orig


# ------------------------------------------------------------------ observation
def stmts(metadata, skip=(HYD, DTS)):
    import rdflib
    out = []
    for p, o in metadata.graph.predicate_objects(metadata.asNode()):
        if str(p).startswith(tuple(skip) + ("http://www.w3.org/",)):
            continue
        lit = isinstance(o, rdflib.Literal)
        num = lit and o.datatype is not None and str(o.datatype).endswith("#integer")
        out.append({"k": S(str(p)), "t": "int" if num else "lit" if lit else "uri", "s": S(str(o)), "lang": [S(o.language)] if lit and o.language else []})
    return sorted(out, key=repr)


def ref_of(r):
    return {"s": S(str(r.start)), "e": O(r.end or None, lambda x: S(str(x)))}


def full_ref(r):
    return dict(ref_of(r), type=O(r.type, lambda x: S(str(x))), meta=stmts(r.metadata))


def enc_refs(q):
    return {"refs": [full_ref(r) for r in q], "level": O(q.level, I), "cit": O(None if q.citation is None else q.citation.name)}


# ------------------------------------------------------------------ execution
def enc_ref(r):
    """ a reference as one string """
    if r is None or isinstance(r, str):
        return O(r)
    return [S(str(r.start)) + ("-" + S(str(r.end)) if r.end else "")]


def enc_doc(p):
    return {"id": S(p.id), "ref": enc_ref(p.reference), "tree": docgen.flat(p.resource), "plain": S(p.export("text/plain"))}


def run(scn, ep):
    """ the history scn["ops"] on the endpoint """
    from MyCapytain.retrievers.dts import HttpDtsRetriever
    from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
    from MyCapytain.common.reference import DtsReference, BaseReference
    from MyCapytain.common.utils import parse_pagination
    from MyCapytain.common.constants import set_graph, bind_graph
    set_graph(bind_graph())
    retr = HttpDtsRetriever(text(scn["entry"]))
    res = HttpDtsResolver(retr if scn.get("retr", True) else text(scn["entry"]))
    if not scn.get("retr", True):
        retr = res.endpoint
    tid = scn.get("tid", "")
    H = {"doc": None, "cur": None}
    ev = [{"op": "serve"}]

    def pair(op):  # [[s, e]] to what is passed
        if not op["ref"]:
            return None
        r = op["ref"][0]
        if r["e"]:
            return (BaseReference if op.get("form") == "base" else DtsReference)(r["s"], r["e"][0])
        return {"str": lambda: r["s"], "obj": lambda: DtsReference(r["s"]), "base": lambda: BaseReference(r["s"])}[op.get("form", "str")]()

    def sub(op):  # ["a-b"] to what is passed
        if not op["ref"]:
            return None
        q = op["ref"][0].split("-")
        return pair({"ref": [{"s": q[0], "e": q[1:]}], "form": op.get("form")})
    body = lambda r: S(r.text)
    for op in scn["ops"]:
        k = op["op"]
        e = dict(op)
        ep.log, ep.served, ep.faults = [], [], list(op.get("faults", []))
        ep.book = {"pages": op["pages"], "types": op["types"], "level": op["level"]} if "pages" in op else None
        e.pop("faults", None)
        h, new = H.get(op.get("h", "doc")), [None]

        def keep(p):
            new[0] = p
            return p
        if k in ("id", "move", "kids", "hreffs", "meta", "depth", "node") and h is None:
            continue
        w = op.get("which", op.get("mv"))
        if w in ("prevId", "nextId", "siblingsId", "parentId", "prev", "next", "parent") and h.reference is None:
            continue
        if k == "routes":
            e["obs"] = obs(lambda: retr.routes, lambda r: {n: {"path": S(r[n].path), "qs": [[S(a), S(b)] for a, bs in sorted(r[n].query_dict.items()) for b in (bs if isinstance(bs, list) else [bs])]} for n in ("collections", "documents", "navigation")})
        elif k == "coll":
            kw = {n: op[f][0] if n != "page" else int(op[f][0]) for n, f in (("collection_id", "id"), ("nav", "nav"), ("page", "page")) if op[f]}
            e["obs"] = obs(lambda: retr.get_collection(**kw), body)
        elif k == "nav":
            kw = {n: (int(op[f][0]) if op[f][0].isdigit() and n != "exclude" else op[f][0]) for n, f in (("level", "lv"), ("group_by", "group"), ("exclude", "excl"), ("page", "page"), ("max_", "max")) if op[f]}
            if op["ref"]:
                kw["ref"] = pair(op)
            e["obs"] = obs(lambda: retr.get_navigation(op["id"][0], **kw), body)
        elif k == "docu":
            kw = {"ref": pair(op)} if op["ref"] else {}
            e["obs"] = obs(lambda: retr.get_document(op["id"][0], **kw), body)
        elif k == "pag":
            hd = {"Link": ", ".join('<%s>; rel="%s"' % (x["base"] + "?" + urlencode(x["qs"]), x["rel"]) for x in op["links"])} if op["links"] or op.get("blank") else {}
            e["obs"] = obs(lambda: parse_pagination(hd), lambda n: {"previous": O(n.prev), "next": O(n.next), "last": O(n.last), "current": O(n.current), "first": O(n.first)})
        elif k == "reffs":
            kw = {"additional_parameters": dict(([("groupBy", int(op["group"][0]))] if op["group"] else []) + ([("exclude", op["excl"][0])] if op["excl"] else []))} if op["group"] or op["excl"] else {}
            if op["ref"]:
                kw["subreference"] = pair(op)
            if op["lv"] != 1 or op.get("full"):
                kw["level"] = op["lv"]
            e["holds"] = []
            e["obs"] = obs(lambda: keep(res.getReffs(op["id"], **kw)), enc_refs)
            if new[0] is not None and e["obs"]["k"] == "v":
                e["holds"] = [x in new[0] for x in op["probes"]]
        elif k == "open":
            e["obs"] = obs(lambda: enc_doc(keep(res.getTextualNode(tid, subreference=sub(op)) if op["ref"] else res.getTextualNode(tid))), lambda x: x)
        elif k == "node":
            e["obs"] = obs(lambda: enc_doc(keep(h.getTextualNode(sub(op)))), lambda x: x)
        elif k == "id":
            e["obs"] = obs(lambda: getattr(h, w), {"siblingsId": lambda z: {"prev": enc_ref(z[0]), "next": enc_ref(z[1])}, "childIds": lambda z: [enc_ref(r)[0] for r in z]}.get(w, enc_ref))
        elif k == "move":
            e["obs"] = obs(lambda: [enc_doc(p) for p in [keep(getattr(h, w))] if p is not None], lambda x: x)
        elif k == "kids":
            e["obs"] = obs(lambda: [enc_doc(p) for p in list(h.children)], lambda x: x)
        elif k == "hreffs":
            e["obs"] = obs(lambda: h.getReffs(level=op["lv"], subreference=sub(op)) if op["ref"] or op["lv"] > 1 else h.getReffs(), lambda q: [enc_ref(r)[0] for r in q])
        elif k == "meta":
            e["obs"] = obs(lambda: h.metadata, stmts)
        elif k == "depth":
            e["obs"] = obs(lambda: h.depth, I)
        e["q"], e["served"] = ep.log, ep.served if k in ("open", "node", "move", "kids") else []
        if k in ("open", "node", "move") and e["obs"]["k"] == "v" and new[0] is not None:
            if k == "open":
                H["doc"] = new[0]
            H["cur"] = new[0]
        ev.append(e)
    return {"id": scn["id"], "entry": scn["entry"], "routes": scn["routes"], "tid": tid, "per": scn.get("per", 1), "doc": scn.get("doc", []), "sch": scn.get("sch", []), "meta": scn.get("meta", []),
            "body": S(scn.get("body", "")), "ev": ev}


def execute(scn):
    with served(scn) as ep:
        return run(scn, ep)


# ------------------------------------------------------------------ scenarios
IDS = ["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "lettres_de_poilus", "http://example.org/a?b=c&d", "é b+c#d", "1"]


def setting(rng):
    s = routes(rng)
    s.update({"way": rng.choice("pqhf"), "per": rng.choice([1, 2, 3, 5, 100]), "viewbase": rng.choice(["/x/", "/dts/api/", "https://h/a/b?c=1", ""]), "pagefirst": rng.random() < .4, "perpage": rng.random() < .15,
              "oneview": rng.random() < .3, "nomember": rng.random() < .5, "uptop": rng.random() < .3, "shuffle": rng.random() < .3, "wide": rng.random() < .5, "retr": rng.random() < .7,
              "ctype": rng.choice(["application/ld+json", "application/ld+json; charset=utf-8", "application/json"])})
    return s


def pages(rng, sizes=None):
    sizes = sizes if sizes is not None else [rng.randint(0, 4) for _ in range(rng.randint(1, 5))]
    n, out = 0, []
    for z in sizes:
        p = []
        for _ in range(z):
            n += 1
            x = rng.random()
            s = rng.choice(["%d", "1.%d", "é%d", "%d.pr a"]) % n
            p.append({"s": s, "e": [s + "9"] if x < .25 else [], "type": [rng.choice(["poem", "verset"])] if rng.random() < .3 else [], "meta": statements(rng, rng.choice([0, 0, 1, 2]))})
        out.append(p)
    one = lambda: [rng.choice(["livre", "line", "Épître"])] if rng.random() < .7 else []
    types = [one()] * len(out) if rng.random() < .8 else [one() for _ in out]
    return {"pages": out, "types": types, "level": rng.randint(0, 4)}


def faults(rng, p, kinds, n=2):
    return [""] * rng.randint(0, n) + [rng.choice(kinds)] if rng.random() < p else []
