"""C01: URN objects."""
import copy
import pickle
from fw import S, O, I, L, obs

MC = [("MCUrn.tla", "MCUrn.cfg")]
TRACE = ("TraceUrn.tla", "Trace.cfg")
REQUIRED_OPS = ["parse", "set", "read", "cmp"]
ASSUMPTIONS = ["component texts are drawn from letters, digits, '_', '-' and non-ASCII letters; ranges have one '-'"]
COMPS = ["urn_namespace", "namespace", "textgroup", "work", "version", "reference"]
KEYS = ["NAMESPACE", "TEXTGROUP", "WORK", "VERSION", "PASSAGE", "PASSAGE_START", "PASSAGE_END", "NO_PASSAGE", "COMPLETE"]


def scenarios(rng, tier, mc):
    for n, hist in enumerate(mc):
        yield {"id": "mc%d" % n, "class": "specification history", "ops": hist, "each": True}
    names = ["phi1294", "tlg0012", "a", "b-c", "x_1", "perseus-lat2", "1st1K-grc1", "é", "λόγος", "ns", "W", "0", "work"]
    def word():
        return rng.choice(["", "", "", "@a[1]", "@Achilles", "@μῆνιν[2]", "@[0]", "@b[10]"])
    def single():
        return ".".join(rng.choice(["1", "2", "10", "a", "pr", "α", "1a", "3_b"]) for _ in range(rng.randint(1, 4))) + word()
    def ref():
        return single() if rng.random() < .5 else single() + "-" + single()
    def text(bad=True):
        k = rng.random()
        if bad and k < .04:
            return rng.choice(["", "urn", "urn:cts", "a", "urn:x", "1.1", "urn:cts#a:b"])
        t = "urn:" + rng.choice(["cts", "cts", "dts"]) + ":" + rng.choice(names)
        if k < .12:
            return t
        t += ":" + rng.choice(names)
        if k < .22:
            return t
        t += "." + rng.choice(names)
        if k > .4:
            t += "." + rng.choice(names)
        if rng.random() < .6:
            t += ":" + ref()
        if rng.random() < .1:
            t += "#" + rng.choice(["x", "a:b", "1.1"])
        return t
    def near(t):
        """ a text told apart from t by little """
        f = t.split(":")
        i = rng.randrange(1, len(f))
        x = f[i]
        f[i] = rng.choice([x.swapcase(), x.swapcase(), x[:1].swapcase() + x[1:], x + "1", x[:-1] or x, "0" + x, x.replace(".", "_", 1), x.replace("é", "e").replace("ό", "ο"), x + "s"])
        return ":".join(f)
    for n in range(4000 if tier == "quick" else 20000):
        ops = [{"op": "parse", "t": text()}]
        base = ops[0]["t"]
        for _ in range(rng.randint(1, 14)):
            k = rng.random()
            if k < .35:
                c = rng.choice(COMPS)
                v = [] if (c not in ("urn_namespace", "namespace") and rng.random() < .25) else [ref() if c == "reference" else rng.choice(names)]
                ops.append({"op": "set", "c": c, "v": v, "as": rng.choice(["str", "obj"])})
            elif k < .8:
                ops.append({"op": "read"})
            else:
                ops.append({"op": "cmp", "t": rng.choice([text(False), base.split("#")[0], near(base.split("#")[0]), near(base.split("#")[0])]) if base.count(":") > 1 else text(False)})
        ops.append({"op": "read"})
        yield {"id": "r%d" % n, "class": "random history", "ops": ops, "each": False}


def read(u, URN):
    up = {}
    order = KEYS
    for k in order:
        try:
            up[k] = [S(u.upTo(getattr(URN, k)))]
        except KeyError:
            up[k] = []
        except TypeError:
            up[k] = ["!!TypeError"]
    return {"comps": {c: O(getattr(u, c), (lambda r: S(str(r))) if c == "reference" else S) for c in COMPS},
            "size": I(len(u)), "str": S(str(u)), "upto": up,
            "copy": S(str(pickle.loads(pickle.dumps(copy.deepcopy(u)))))}


def execute(scn):
    from MyCapytain.common.reference import URN, CtsReference
    u, ev = None, []
    for op in scn["ops"]:
        e = dict(op)
        if op["op"] == "parse":
            try:
                u = URN(op["t"])
                e["res"] = "ok"
            except Exception as x:
                e["res"] = type(x).__name__
            ev.append(e)
            if u is None:
                break
        elif op["op"] == "set":
            v = op["v"][0] if op["v"] else None
            if op["c"] == "reference" and v is not None and op.get("as") == "obj":
                v = CtsReference(v)
            try:
                setattr(u, op["c"], v)
                e["res"] = "ok"
            except Exception as x:
                e["res"] = type(x).__name__
            ev.append(e)
        elif op["op"] == "read":
            e["obs"] = read(u, URN)
            ev.append(e)
        elif op["op"] == "cmp":
            w = URN(op["t"])
            e.update(gt=bool(u > w), lt=bool(u < w), eq=bool(u == w), ne=bool(u != w), eqstr=bool(u == str(u)))
            ev.append(e)
        if scn["each"] and op["op"] != "read":
            ev.append({"op": "read", "obs": read(u, URN)})
    return {"id": scn["id"], "ev": ev}
