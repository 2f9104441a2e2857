"""Citable documents: trees as lists of items (see spec/Tree.tla), schemes, and their XML texts."""
from lxml import etree

TEI = "http://www.tei-c.org/ns/1.0"
PY = "http://codespeak.net/lxml/objectify/pytype"
NS = {TEI: "tei", "http://www.w3.org/XML/1998/namespace": "xml", "http://example.org/x": "x"}


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;").replace("\t", "&#9;" if False else "\t")


def refsdecl(sch, names=None):
    """ text of each level's pattern """
    out, cur, k = [], "", 0
    for level in sch:
        for st in level:
            cur += st["sep"] + st["tag"]
            preds = []
            if st["ca"]:
                preds.append("@%s='%s'" % tuple(st["ca"]))
            if st["ph"]:
                k += 1
                preds.append("@%s='$%d'" % (st["ph"], k))
            if st.get("joined") and len(preds) == 2:
                cur += "[" + " and ".join(preds) + "]"
            else:
                cur += "".join("[" + p + "]" for p in preds)
        out.append(cur)
    return out


def crefs(sch):
    return "".join('<cRefPattern n="lv%d" matchPattern="x" replacementPattern="#xpath(%s)"/>' % (k + 1, p)
                   for k, p in reversed(list(enumerate(refsdecl(sch)))))


class Gen(object):
    def __init__(self, rng, rich=True, blanks=False):
        self.rng, self.n, self.items, self.rich, self.blanks = rng, 0, [], rich, blanks

    def add(self, d, k, tag="", at=(), tx=""):
        self.items.append({"d": d, "k": k, "tag": tag, "at": sorted([list(a) for a in at]), "tx": tx})

    def word(self):
        self.n += 1
        r = self.rng.random()
        if r < .12:
            return "%d" % self.n
        if r < .25 and self.blanks:
            return "\n" + "".join("\n\t"[int(c)] for c in bin(self.n)[2:])
        w = self.rng.choice(["w%d", "w%d ", " w%d", "a  b%d", "  w%d   x", u"μῆνιν%d ", "x&y%d", "<%d>", "w%d\n  ", u"\xa0%d\xa0"]) % self.n
        return w

    def text(self, d, p=.7):
        if self.items[-1]["k"] == "t" and self.items[-1]["d"] == d:
            return
        if self.rng.random() < p:
            self.add(d, "t", tx=self.word())

    def noise(self, d, p):
        """ things which are not units """
        rng = self.rng
        while rng.random() < p:
            r = rng.random()
            if r < .25:
                self.n += 1
                self.add(d, "c", tx=" c%d " % self.n)
            elif r < .35:
                self.n += 1
                self.add(d, "p", tx="pi v%d" % self.n)
            elif r < .75 or not self.rich:
                self.add(d, "e", rng.choice(["tei:note", "tei:milestone", "tei:pb", "tei:head"]),
                         [("n", str(rng.randint(1, 3)))] if rng.random() < .5 else [])
                self.text(d + 1)
            else:
                self.add(d, "e", rng.choice(["x:foo", "tei:fw"]), [("xml:lang", "la")] if rng.random() < .5 else [])
                self.text(d + 1)
                if rng.random() < .5:
                    self.add(d + 1, "e", "tei:hi", [("rend", "it")])
                    self.text(d + 2)
                    self.text(d + 1)
            self.text(d, .6)
            p *= .7

    def content(self, d):
        """ inside of a leaf """
        self.text(d, .85)
        for _ in range(self.rng.choice([0, 0, 0, 1, 1, 2])):
            self.add(d, "e", self.rng.choice(["tei:hi", "tei:note", "tei:name", "tei:w", "tei:note"]), [("type", "k")] if self.rng.random() < .3 else [])
            self.text(d + 1, .8)
            if self.rng.random() < .3:
                self.add(d + 1, "e", self.rng.choice(["tei:note", "tei:hi"]))
                self.text(d + 2, .8)
                self.text(d + 1, .5)
            self.text(d, .8)
        if self.rng.random() < .12:
            self.n += 1
            self.add(d, "c", tx=" in%d " % self.n)
            self.text(d, .6)


VALS = ["1", "2", "3", "4", "5", "6", "10", "a", "b", "pr", "1a", u"α", "20", "11"]


def scheme(rng, depth):
    """ a scheme with its placement recipe """
    prefix = [("/", "tei:TEI", []), ("/", "tei:text", []), ("/", "tei:body", [])]
    if rng.random() < .5:
        prefix.append(("/", "tei:div", ["type", "edition"]))
    tags = {1: ["tei:l", "tei:div", "tei:ab", "tei:p"]}.get(depth, ["tei:div"])
    sch, leaf = [], None
    for k in range(1, depth + 1):
        lv = []
        if k == 1:
            for sep, tag, ca in prefix:
                lv.append({"sep": sep, "tag": tag, "ca": ca, "ph": ""})
            if rng.random() < .2:
                lv.append({"sep": "/", "tag": "tei:div1", "ca": ["subtype", "all"], "ph": ""})
        elif rng.random() < .25:
            lv.append({"sep": "/", "tag": rng.choice(["tei:lg", "tei:div2"]), "ca": [], "ph": ""})
        last = k == depth
        tag = rng.choice(["tei:l", "tei:seg", "tei:ab", "tei:div"]) if last else rng.choice(["tei:div", "tei:div", "tei:div", "tei:lg1"])
        dbl = rng.random() < (.25 if last else .08)
        if dbl:
            tag = "tei:" + ["u1", "u2", "u3", "u4"][k - 1] if not last else rng.choice(["tei:l", "tei:seg"])
        ca = ["type", "textpart"] if rng.random() < .35 else []
        ph = "xml:id" if rng.random() < .06 else "n"
        lv.append({"sep": "//" if dbl else "/", "tag": tag, "ca": ca, "ph": ph, "joined": rng.random() < .4})
        sch.append(lv)
    return sch


def document(rng, depth=None, size=None, noise=.35, limit=None, blanks=False):
    limit = limit or rng.choice([50, 80, 110])
    depth = depth or rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    while True:
        d = document1(rng, depth, size, noise, blanks)
        if len(d["doc"]) <= limit:
            return d


def document1(rng, depth, size, noise, blanks):
    sch = scheme(rng, depth)
    g = Gen(rng, blanks=blanks)
    size = size or rng.choice({1: [1, 3, 5, 7], 2: [1, 2, 3, 4], 3: [1, 2, 2, 3]}.get(depth, [1, 2, 2]))
    g.add(0, "e", "tei:TEI")
    g.text(1, .5)
    # header comes separately when printed: the refsDecl is an ordinary part of the tree
    g.add(1, "e", "tei:refsDecl", [("n", "CTS")])
    for k, p in reversed(list(enumerate(refsdecl(sch)))):
        g.add(2, "e", "tei:cRefPattern", [("n", "lv%d" % (k + 1)), ("matchPattern", "x"), ("replacementPattern", "#xpath(%s)" % p)])
    g.text(1, .5)
    steps = sch[0][1:]          # after tei:TEI
    fill(g, rng, sch, 0, steps, 1, size, noise)
    g.text(1, .5)
    return {"doc": g.items, "sch": strip(sch)}


def strip(sch):
    return [[dict(st, joined=st.get("joined", False)) for st in lv] for lv in sch]


def fill(g, rng, sch, k, steps, d, size, noise):
    """ write what the remaining steps of level k need at depth d """
    st = steps[0]
    if st["ph"]:
        unit(g, rng, sch, k, st, d, size, noise)
        return
    for copy in range(2 if (st["tag"] in ("tei:lg", "tei:div2", "tei:div1") or st["ca"]) and rng.random() < .35 else 1):
        if st["ca"] and rng.random() < .25:     # a sibling the scheme does not cover
            g.add(d, "e", st["tag"], [("type", "translation")])
            g.text(d + 1)
            g.add(d + 1, "e", sch[-1][-1]["tag"], [("n", "1")] if sch[-1][-1]["sep"] == "/" and not any(s["sep"] == "//" for lv in sch for s in lv) else [])
            g.text(d + 2)
            g.text(d, .4)
        g.add(d, "e", st["tag"], [tuple(st["ca"])] if st["ca"] else [])
        g.text(d + 1, .5)
        if copy == 0:
            g.pool = getattr(g, "pool", {})
        fill(g, rng, sch, k, steps[1:], d + 1, size, noise)
        g.text(d, .4)


def unit(g, rng, sch, k, st, d, size, noise):
    used = g.__dict__.setdefault("used", {})
    key = getattr(g, "path", ())
    vals = used.setdefault(key, set())
    n = max(1, min(8, size + rng.randint(-1, 1)))
    left = [v for v in VALS if v not in vals]
    chosen = rng.sample(left, min(n, len(left))) if rng.random() < .4 else left[:n]
    g.noise(d, noise)
    dd = d
    for v in chosen:
        vals.add(v)
        if st["ph"] == "xml:id":
            g.n += 1
            v = "id%d" % g.n
        if st["sep"] == "//":
            wrap = rng.random()
            if wrap < .3:
                g.add(d, "e", "tei:lg3")
                dd = d + 1
                g.text(dd, .4)
            elif wrap < .6:
                dd = d
            # else: stay in the wrapper of the previous unit
            elif dd == d + 1 and not (g.items[-1]["d"] >= d + 1 or g.items[-1]["tag"] == "tei:lg3"):
                dd = d
        at = [(st["ph"], v)] + ([tuple(st["ca"])] if st["ca"] else [])
        if rng.random() < .2:
            at.append(("rend", "r"))
        g.add(dd, "e", st["tag"], at)
        if k == len(sch) - 1:
            g.content(dd + 1)
        else:
            g.text(dd + 1, .5)
            g.path = key + (v,)
            fill(g, rng, sch, k + 1, sch[k + 1], dd + 1, size, noise * .6)
            g.path = key
        g.text(dd, .5)
        if dd == d or rng.random() < .3:
            g.noise(dd, noise * .6)
        if rng.random() < .06:                   # same element, not citable
            g.add(dd, "e", st["tag"], [tuple(st["ca"])] if st["ca"] else [])
            g.text(dd + 1)
            g.text(dd, .5)


def tag(t):
    return t.split(":")[1] if t.startswith("tei:") else t


def to_xml(items):
    out, stack = [], []

    def close(d):
        while stack and stack[-1][0] >= d:
            out.append("</%s>" % stack.pop()[1])
    for n, it in enumerate(items):
        close(it["d"])
        if it["k"] == "e":
            ns = ' xmlns="%s"' % TEI if n == 0 else ""
            if it["tag"].startswith("x:"):
                ns += ' xmlns:x="http://example.org/x"'
            out.append("<%s%s%s>" % (tag(it["tag"]), ns, "".join(' %s="%s"' % (a, esc(v)) for a, v in it["at"])))
            stack.append((it["d"], tag(it["tag"])))
        elif it["k"] == "t":
            out.append(esc(it["tx"]))
        elif it["k"] == "c":
            out.append("<!--%s-->" % it["tx"])
        else:
            out.append("<?%s?>" % it["tx"])
    close(0)
    return "".join(out)


def name(q):
    if q[0] == "{":
        ns, _, loc = q[1:].partition("}")
        return "%s:%s" % (NS.get(ns, ns), loc)
    return q


def flat(el):
    """ items of an lxml tree, read from its serialisation (objectified trees hide comments) """
    root = etree.fromstring(etree.tostring(el, with_tail=False))
    out = []

    def rec(x, d):
        if x.tag is etree.Comment:
            out.append({"d": d, "k": "c", "tag": "", "at": [], "tx": x.text or ""})
        elif x.tag is etree.PI:
            out.append({"d": d, "k": "p", "tag": "", "at": [], "tx": x.target + (" " + x.text if x.text else "")})
        else:
            at = sorted([name(a), v] for a, v in x.attrib.items() if not a.startswith("{" + PY))
            out.append({"d": d, "k": "e", "tag": name(x.tag), "at": at, "tx": ""})
            if x.text:
                out.append({"d": d + 1, "k": "t", "tag": "", "at": [], "tx": x.text})
            for c in x:
                rec(c, d + 1)
        if d and x.tail:
            out.append({"d": d, "k": "t", "tag": "", "at": [], "tx": x.tail})
    rec(root, 0)
    return out


# ---- used only to choose interesting inputs (the specification computes its own)
def units(doc):
    import re
    root = etree.fromstring(to_xml(doc["doc"]))
    ns = {"tei": TEI}
    levels, prev = [], [((), None)]
    pats = refsdecl(doc["sch"])
    for k, p in enumerate(pats):
        cur = []
        for ref, _ in prev:
            q = p
            for j, v in enumerate(ref):
                q = q.replace("'$%d'" % (j + 1), "'%s'" % v)
            a = doc["sch"][k][-1]["ph"]
            q = q.replace("@%s='$%d'" % (a, k + 1), "@%s" % a)
            for nd in root.xpath(q, namespaces=ns):
                cur.append((ref + (nd.get(a.replace("xml:", "{http://www.w3.org/XML/1998/namespace}")),), nd))
        levels.append(cur)
        prev = cur
    return root, levels


def pick_range(rng, root, levels, depth=None):
    order = {x: n for n, x in enumerate(root.iter())}
    for _ in range(20):
        la = levels[(depth or rng.randint(1, len(levels))) - 1]
        lb = la if rng.random() < .75 or depth else levels[rng.randrange(len(levels))]
        if not la or not lb:
            continue
        (ra, na), (rb, nb) = rng.choice(la), rng.choice(lb)
        if order[na] > order[nb]:
            ra, na, rb, nb = rb, nb, ra, na
        if na is nb:
            if rng.random() < .3:
                return ".".join(ra) + "-" + ".".join(rb)
            continue
        if na in list(nb.iterancestors()) or nb in list(na.iterancestors()):
            continue
        return ".".join(ra) + "-" + ".".join(rb)
    return ".".join(rng.choice(levels[0])[0])
