"""Repositories on disk and the local resolver reading them (C13, C15)."""
import os
import shutil
import tempfile
import zlib
import docgen
import textops
from fw import S, O, I, L, B, obs
from xml.sax.saxutils import escape, quoteattr

TI = "http://chs.harvard.edu/xmlns/cts"
TAG = {"ed": "edition", "tr": "translation", "co": "commentary"}


def group_xml(g):
    return '<ti:textgroup xmlns:ti="%s" urn="%s">%s</ti:textgroup>' % (TI, g["id"], labels("groupname", g["lab"]))


def labels(tag, lab):
    return "".join('<ti:%s xml:lang="%s">%s</ti:%s>' % (tag, l, escape(t), tag) for l, t in lab)


def work_xml(w, gid):
    out = '<ti:work xmlns:ti="%s" urn="%s" groupUrn="%s"%s>%s' % (TI, w["id"], gid, ' xml:lang="%s"' % w["lang"][0] if w["lang"] else "", labels("title", w["lab"]))
    for t in w["texts"]:
        lang = ' xml:lang="%s"' % t["lang"][0] if t["cls"] != "ed" and t["lang"] else ""
        out += '<ti:%s urn="%s" workUrn="%s"%s>%s</ti:%s>' % (TAG[t["cls"]], t["id"], w["id"], lang, labels("label", t["lab"]) + labels("description", t["desc"]), TAG[t["cls"]])
    return out + "</ti:work>"


def put(path, state, content):
    """ state ok / none / broken ; a broken file is cut, empty, or a directory """
    if state == "none":
        return
    if state == "broken":
        kind = len(path) % 3
        if kind == 0:
            os.makedirs(path)
            return
        content = content[:len(content) // 2] if kind == 1 else ""
        kind = 0
    else:  # any encoding the file declares
        kind = zlib.crc32((path[path.rindex("folder"):] + content[:400]).encode("utf-8")) % 10
    name = {1: "utf-16", 2: "iso-8859-1", 3: "utf-8-sig", 4: "utf-8"}.get(kind)
    if name and not content.startswith("<?xml"):
        content = '<?xml version="1.0" encoding="%s"?>\n%s' % (name.replace("-sig", ""), content)
    with open(path, "wb") as f:
        f.write(content.encode(name or "utf-8", "xmlcharrefreplace"))


def gdir(gid):
    return gid.split(":")[3] if gid.split(":")[2].endswith("Lit") else "%s-%s" % tuple(gid.split(":")[2:4])


def write(root, scn):
    folders = []
    for n, folder in enumerate(scn["repo"]):
        base = os.path.join(root, "folder%d" % (n + 1))
        os.makedirs(os.path.join(base, "data"))
        folders.append(base)
        for g in folder:
            gd = os.path.join(base, "data", gdir(g["id"]))
            os.makedirs(gd)
            put(os.path.join(gd, "__cts__.xml"), g["meta"], group_xml(g))
            for w in g["works"]:
                wd = os.path.join(gd, w["id"].split(".")[-1])
                os.makedirs(wd)
                put(os.path.join(wd, "__cts__.xml"), w["meta"], work_xml(w, g["id"]))
                for t in w["texts"]:
                    d = scn["docs"][t["doc"] - 1]
                    xml = docgen.to_xml(d["doc"])
                    st = t["file"]
                    if st == "nocit":
                        st, xml = "ok", '<TEI xmlns="http://www.tei-c.org/ns/1.0"><text><body><p>x</p></body></text></TEI>'
                    put(os.path.join(wd, t["id"].split(":")[3] + ".xml"), st, xml)
    return folders


def pats(d):
    return [{"name": "lv%d" % (i + 1), "pat": p} for i, p in enumerate(docgen.refsdecl(d["sch"]))]


def rec(x, root):
    from MyCapytain.common.constants import RDF_NAMESPACES as N
    cls = {"textgroup": "tg", "work": "wk", "edition": "ed", "translation": "tr", "commentary": "co"}.get(str(x.TYPE_URI).split("/")[-1], "?")
    prop = {"tg": "groupname", "wk": "title"}.get(cls, "label")
    path = getattr(x, "path", None) or ""
    folder = 0
    if path:
        rel = os.path.relpath(path, root).split(os.sep)
        want = os.path.join(gdir(x.id.split(".")[0]), x.id.split(".")[1], x.id.split(":")[3] + ".xml")
        folder = int(rel[0][6:]) if os.path.normpath(os.path.join(*rel[2:])) == want and rel[0].startswith("folder") else -1
    cit = getattr(x, "citation", None)
    return {"id": S(x.id), "cls": cls, "par": S(x.parent.id), "lang": O(x.lang) if cls in ("wk", "ed", "tr", "co") else [], "folder": folder,
            "cit": [{"name": S(c.name), "pat": S(c.refsDecl).replace('"', "'")} for c in cit] if cit is not None else [],
            "lab": sorted([S(o.language), S(str(o))] for o in x.metadata.get(N.CTS.term(prop))),
            "desc": sorted([S(o.language), S(str(o))] for o in x.metadata.get(N.CTS.term("description")))}


def tree(x, root, skip):
    out = [] if skip(x) else [rec(x, root)]
    for m in x.members:
        out += tree(m, root, skip)
    return out


def lits(node, key):
    return sorted([S(o.language), S(str(o))] for o in node.metadata.get(key))


def execute(scn):
    root = tempfile.mkdtemp(prefix="vrepo-", dir=os.environ.get("VERIF_WORK"))
    try:
        # folders have any name
        here = os.path.join(root, ["", "", "texts [old]", "a*b", "é è", "wh?t", "50%"][zlib.crc32(scn["id"].encode()) % 7])
        os.makedirs(here, exist_ok=True)
        return run(scn, here)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(scn, root):
    from MyCapytain.common.constants import set_graph, bind_graph, RDF_NAMESPACES
    from MyCapytain.common.reference import CtsReference, URN
    from MyCapytain.resources.texts.remote.cts import CtsText
    from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
    from MyCapytain.resolvers.utils import CollectionDispatcher
    from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection, CtsTextInventoryMetadata
    from rdflib.namespace import DC
    import logging
    log = logging.getLogger("vrepo")
    log.disabled = True
    set_graph(bind_graph())
    for t in (t for f in scn["repo"] for g in f for w in g["works"] for t in w["texts"]):
        t.setdefault("desc", [])
    folders = write(root, scn)

    class Res(CtsCapitainsLocalResolver):
        RAISE_ON_GENERIC_PARSING_ERROR = scn["strict"]
        RAISE_ON_UNDISPATCHED = scn["undis"]
    R = [None]

    def load():
        if scn.get("default"):
            R[0] = Res(folders, logger=log)
        else:
            tic = CtsTextInventoryCollection(scn["root"])
            for i in scn["invs"]:
                CtsTextInventoryMetadata(i, parent=tic)
            d = CollectionDispatcher(tic)
            del d.methods[0]
            for r in scn["rules"]:
                d.add({"all": lambda c, **k: True, "prefix": lambda c, r=r, **k: c.id.startswith(r["arg"]),
                       "folder": lambda c, path=None, r=r, **k: os.sep + "folder" + r["arg"] + os.sep in path}.get(r["kind"], lambda c, **k: None), r["inv"])
            R[0] = Res(folders, logger=log, dispatcher=d)
        return R[0]
    skip = lambda x: x.TYPE_URI.endswith("TextInventory") or x.TYPE_URI.endswith("TextInventoryCollection")
    ev = [{"op": "load", "repo": scn["repo"], "rules": scn["rules"], "strict": scn["strict"], "undis": scn["undis"],
           "obs": obs(load, lambda r: {"recs": tree(r.inventory, root, skip), "texts": [S(t.id) for t in r.texts], "invs": [S(i.id) for i in r.inventory.members]})}]
    r = R[0]
    def said(p):
        return {"creator": lits(p, DC.creator), "title": lits(p, DC.title), "subject": lits(p, DC.subject), "desc": lits(p, DC.description),
                "cts": [O(p.get_cts_metadata(a, "eng"), lambda o: [S(o.language), S(str(o))]) for a in ("groupname", "title", "label", "description")]}

    for q in scn.get("ask", []):
        if r is None:
            break
        e, k = dict(q), q["op"]
        ref = lambda: CtsReference(q["ref"][0]) if not q.get("str") else q["ref"][0]
        if k == "meta":
            e["obs"] = obs(lambda: r.getMetadata(q["arg"][0]) if q["arg"] else r.getMetadata(),
                           lambda c: {"recs": tree(c, root, skip), "up": [S(p.id) for p in c.parents]})
        elif k == "filter":
            kw = {}
            for a, b in (("urn", "urn"), ("lang", "lang"), ("page", "page"), ("limit", "limit")):
                if q[b]:
                    kw[a] = q[b][0]
            if "urn" in kw and q["obj"]:
                kw["urn"] = URN(kw["urn"])
            if q["cat"]:
                kw["category"] = TAG[q["cat"][0]]
            t, p, n = r.__getTextMetadata__(pagination=q["paged"], **kw)
            e["res"] = {"ids": [S(x.id) for x in t], "page": I(p), "count": I(n)}
        elif k == "page":
            e["res"] = [I(x) for x in type(r).pagination(q["page"][0] if q["page"] else None, q["limit"][0] if q["limit"] else None, q["length"])]
        elif k == "fill":
            def go():
                t = CtsText(urn=q["id"], retriever=object())
                t.set_metadata_from_collection(r.inventory[q["id"]])
                return t
            e["obs"] = obs(go, lambda t: dict(said(t), cit=[S(c.name) for c in t.citation] if t.citation.is_set() else []))
        elif k == "rnode":
            def enc(p):
                tr = docgen.flat(p.resource) if hasattr(p.resource, "tag") else docgen.flat(p.resource.getroot())
                d = {"ref": S(str(p.reference)) if getattr(p, "reference", None) is not None else "", "urn": S(str(p.urn)) if p.urn is not None else "", "depth": I(p.depth) if getattr(p, "depth", None) is not None else 0, "tree": tr,
                     "creator": [], "title": [], "subject": [], "desc": [], "cts": []}
                if q["meta"]:
                    d.update(said(p))
                return d
            e["obs"] = obs(lambda: r.getTextualNode(q["id"], ref() if q["ref"] else None, metadata=q["meta"]), enc)
        elif k == "rreffs":
            def go():
                t = r.getTextualNode(q["id"])
                return t, r.getReffs(q["id"], level=q["lv"], subreference=ref()) if q["ref"] else r.getReffs(q["id"], level=q["lv"])
            def enc(tr):
                t, rs = tr
                root_ = [c for c in t.citation]
                return {"refs": [S(str(x)) for x in rs], "level": I(rs.level), "depths": all(x.depth == rs.level and not x.is_range() for x in rs),
                        "cit": next((i + 1 for i, c in enumerate(root_) if rs.citation is not None and c.name == rs.citation.name), 0)}
            e["obs"] = obs(go, enc)
        elif k == "rsib":
            one = lambda x: O(x, lambda y: S(str(y)))
            e["obs"] = obs(lambda: r.getSiblings(q["id"], ref()), lambda z: {"prev": one(z[0]), "next": one(z[1])})
        ev.append(e)
    return {"id": scn["id"], "docs": scn["docs"], "root": scn["root"], "invs": scn["invs"], "ev": ev}


# ------------------------------------------------------------------ random repositories
WORDS = ["Martial", "Ovid", "Épigrammes", "Tom & Jerry", "", "On  Nature", "a<b"]
LANGS = ["lat", "grc", "eng", "fre"]


def rlab(rng):
    return [[l, rng.choice(WORDS)] for l in rng.sample(["eng", "fre", "lat"], rng.choice([0, 1, 1, 2]))]


def repository(rng, ndocs, faults, nfolders=None):
    """ repo over shared identifiers; every text has its document """
    docs = [docgen.document(rng, limit=40, size=2, blanks=True) for _ in range(ndocs)]
    docs = [{"doc": d["doc"], "sch": d["sch"]} for d in docs]
    ns = rng.choice(["latinLit", "greekLit"])
    langs, cls = {}, {}
    n = [0]
    repo = []
    meta = lambda: rng.choice(["broken", "none", "broken"]) if rng.random() < faults * .4 else "ok"
    nf = nfolders or rng.choice([1, 1, 2, 3])
    for f in range(nf):
        folder = []
        for g in rng.sample(["phi1", "phi12", "phi3", "tlg1"], rng.choice([1, 2, 2, 3])):
            gid = "urn:cts:%s:%s" % (ns if g != "tlg1" else "greekLit", g)
            works = []
            for w in rng.sample(["w1", "w10", "w2"], rng.choice([0, 1, 2, 2])):
                wid = gid + "." + w
                wl = langs.setdefault(wid, [rng.choice(LANGS)] if rng.random() < .9 else [])
                texts = []
                for t in rng.sample(["a-lat1", "a-lat2", "b-eng1", "c-fre1"], rng.choice([0, 1, 1, 2, 3])):
                    tid = wid + "." + t
                    c = cls.setdefault(tid, rng.choice(["ed", "ed", "tr", "co"]))
                    lg = wl if c == "ed" else langs.setdefault(tid, [rng.choice(LANGS)])
                    d = n[0] % ndocs + 1
                    n[0] += 1
                    texts.append({"id": tid, "cls": c, "lang": lg, "lab": rlab(rng), "desc": rlab(rng) if rng.random() < .5 else [], "file": rng.choice(["none", "broken", "nocit"]) if rng.random() < faults else "ok", "cit": pats(docs[d - 1]), "doc": d})
                works.append({"id": wid, "meta": meta(), "lang": wl, "lab": rlab(rng), "texts": texts})
            folder.append({"id": gid, "meta": meta(), "lab": rlab(rng), "works": works})
        repo.append(folder)
    return repo, docs


def disposition(rng, scn):
    """ inventories and rules """
    if rng.random() < .3:
        scn.update(default=True, root="defaultTic", invs=["default"], rules=[{"inv": "default", "kind": "all", "arg": ""}])
    else:
        invs = rng.sample(["urn:perseus:latinLit", "urn:perseus:greekLit", "other", "default"], rng.choice([1, 2, 3]))
        rules = [{"inv": invs[0], "kind": "all", "arg": ""}] if rng.random() < .75 else []
        for _ in range(rng.choice([0, 1, 2, 3])):
            k = rng.choice(["prefix", "folder", "never"])
            rules.append({"inv": rng.choice(invs), "kind": k, "arg": {"prefix": rng.choice(["urn:cts:latinLit:", "urn:cts:greekLit:", "urn:cts:latinLit:phi1"]), "folder": rng.choice("123")}.get(k, "")})
        scn.update(root="tic", invs=invs, rules=rules)


def ids(repo):
    g = sorted({x["id"] for f in repo for x in f})
    w = sorted({x["id"] for f in repo for y in f for x in y["works"]})
    t = sorted({x["id"] for f in repo for y in f for z in y["works"] for x in z["texts"]})
    return g, w, t
