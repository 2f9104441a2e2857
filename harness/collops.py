"""Execution of collection scenarios (C09, C11, C14): a heap of real collection objects, fully observed."""
from fw import S, O, I, L, B, obs


def classes(xml):
    import MyCapytain.resources.prototypes.cts.inventory as inv
    import MyCapytain.resources.collections.cts as x
    import MyCapytain.resources.prototypes.metadata as pm
    r = {"coll": pm.Collection, "res": pm.ResourceCollection, "ic": inv.CtsTextInventoryCollection}
    for k, n in (("inv", "TextInventory"), ("tg", "Textgroup"), ("wk", "Work"), ("ed", "Edition"), ("tr", "Translation"), ("co", "Commentary")):
        r[k] = getattr(x, "XmlCts%sMetadata" % n) if xml else getattr(inv, "Cts%sMetadata" % n)
    return r


class Heap(object):
    def __init__(self, scn):
        from MyCapytain.common.constants import set_graph, bind_graph
        set_graph(bind_graph())
        self.o = []
        self.cls = classes(scn.get("xml", False))
        self.keys = sorted({op["id"] for op in scn["ops"] if op["op"] == "new"}) + ["urn:cts:zz:zz"]

    def ix(self, x):
        if x is None:
            return 0
        return next((i + 1 for i, y in enumerate(self.o) if y is x), -1)

    def ixs(self, q):
        return [self.ix(x) for x in q]

    def new(self, op):
        c = self.cls[op["cls"]]
        par = self.o[op["par"] - 1] if op["par"] else None
        cls, late = op["cls"], op.get("late")
        kw = {}
        if cls in ("tg", "wk", "ed", "tr", "co", "inv") and par is not None and not late:
            kw["parent"] = par
        if cls in ("ed", "tr", "co") and op["lang"]:
            kw["lang"] = op["lang"][0]
        x = c(op["id"], **kw)
        if cls == "wk" and op["lang"]:
            x.lang = op["lang"][0]
        if op["cit"]:
            from MyCapytain.common.reference import Citation
            t = None
            for n in reversed(op["cit"]):
                t = Citation(name=n, refsDecl="/TEI/text/body/div[@n='$1']", child=t)
            x.citation = t
        if par is not None and "parent" not in kw:
            x.parent = par
        self.o.append(x)

    def heap(self):
        objs = []
        for x in self.o:
            look, has = [], []
            for k in self.keys:
                try:
                    look.append(self.ix(x[k]))
                except Exception as e:
                    look.append(0 if type(e).__name__ == "UnknownCollection" else -2)
                has.append(k in x)
            cls = next((k for k, c in self.cls.items() if type(x) is c), "?")
            cit = getattr(x, "citation", None)
            objs.append({"id": S(x.id), "cls": cls, "par": self.ix(x.parent), "pars": self.ixs(x.parents), "mem": self.ixs(x.members),
                         "kids": [self.ix(v) if k == v.id else -3 for k, v in x.children.items()],
                         "desc": self.ixs(x.descendants), "read": self.ixs(x.readableDescendants), "readable": B(x.readable),
                         "size": I(x.size), "len": I(len(x)) if hasattr(x, "__len__") else -1, "look": look, "has": has,
                         "lang": [S(x.lang)] if cls in ("ed", "tr", "co") else [], "cit": [S(c.name) for c in cit] if cit is not None else []})
        lab = []
        for k in self.keys:
            y = next((x for x in self.o if x.id == k), None)
            lab.append(y is not None and y.get_label() is not None)
        return {"op": "heap", "objs": objs, "keys": self.keys, "lab": lab}


def execute(scn):
    w = Heap(scn)
    ev = []
    every = scn.get("every", True)
    for n, op in enumerate(scn["ops"]):
        e = {k: v for k, v in op.items() if k not in ("late", "label")}
        t = op["op"]
        if t == "new":
            e.setdefault("lang", [])
            e.setdefault("cit", [])
            w.new(dict(op, lang=e["lang"], cit=e["cit"]))
        elif t == "setpar":
            w.o[op["c"] - 1].parent = w.o[op["p"] - 1]
        elif t == "label":
            for p, lg in (("Label ", "eng"), ("Titre ", "fre")):
                w.o[op["o"] - 1].set_label(p + w.o[op["o"] - 1].id, lg)
                if hasattr(w.o[op["o"] - 1], "set_cts_property"):
                    w.o[op["o"] - 1].set_cts_property("description", p + w.o[op["o"] - 1].id, lg)
        elif t == "del":
            def d():
                del w.o[op["o"] - 1][op["key"]]
            e["obs"] = obs(d, lambda v: 0)
        elif t == "update":
            a, b = w.o[op["w"] - 1], w.o[op["o"] - 1]
            e["obs"] = obs(lambda: a.update(b), lambda r: w.ix(r))
            if e["obs"]["k"] == "v" and type(a) is w.cls["tg"]:
                for wid, work in b.works.items():       # objects which appeared through the merge
                    c = a.works.get(wid)
                    if c is None:
                        continue
                    if w.ix(c) < 0:
                        w.o.append(c)
                    for tid in work.texts:
                        x = c.texts.get(tid)
                        if x is not None and w.ix(x) < 0:
                            w.o.append(x)
        elif t == "editions":
            e["res"] = w.ixs(w.o[op["o"] - 1].editions())
        elif t == "translations":
            x = w.o[op["o"] - 1]
            f = x.get_translation_in if hasattr(x, "get_translation_in") else x.translations
            e["res"] = w.ixs(f(op["lang"][0]) if op["lang"] else f())
        elif t == "names":
            x = w.o[op["o"] - 1]
            said = lambda v: dict(zip(("w", "id"), S(str(v) + " ").split(" ")))
            e["said"] = [{"lang": O(lg), "title": said(x.get_title(lang=lg)), "creator": said(x.get_creator(lang=lg)),
                          "subject": said(x.get_subject(lang=lg)), "about": said(x.get_description(lang=lg))}
                         for lg in ("eng", "fre", "ita", None)]
        elif t == "dispatch":
            from MyCapytain.resolvers.utils import CollectionDispatcher
            rules = op["rules"]
            disp = CollectionDispatcher(w.o[op["root"] - 1], default_inventory_name=rules[0]["inv"]) if not op.get("first") else CollectionDispatcher(w.o[op["root"] - 1])
            for i, r in enumerate(rules[1:]):
                f = {"all": lambda c, r=r, **k: True, "prefix": lambda c, r=r, **k: c.id.startswith(r["arg"]),
                     "path": lambda c, path=None, r=r, **k: path.startswith(r["arg"]), "never": lambda c, **k: None,
                     "truthy": lambda c, **k: "yes"}[r["kind"]]
                if i % 2:
                    disp.add(f, r["inv"])
                else:
                    g = disp.inventory(r["inv"])(f)
                    if i % 4 == 0:  # the decorated function stays usable: registered again, nothing changes
                        disp.add(g, r["inv"])
            e["obs"] = obs(lambda: disp.dispatch(w.o[op["c"] - 1], path=op["path"]), lambda v: 0)
        ev.append(e)
        if t in ("new", "setpar", "del", "update", "dispatch", "label") and (every or n >= scn.get("quiet", 0)):
            ev.append(w.heap())
    return {"id": scn["id"], "ev": ev}
