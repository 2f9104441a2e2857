"""C16: requests sent to a CTS endpoint."""
import ctsapi
import docgen
MC = [("MCCall.tla", "MCCall.cfg")]
TRACE = ("TraceApi.tla", "Trace.cfg")
REQUIRED_OPS = ["call", "rnode", "rplus", "pn", "reffs", "id"]
TIMEOUT = 60
ASSUMPTIONS = ["replies are application/xml in UTF-8 or in the charset they declare"]
VALUES = ["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:farsiLit:hafez.divan.perseus-far1", "urn:cts:a:b.c.d", "urn:cts:é:b c+d&e.f#g=h", "urn:cts:greekLit:tlg0012"]
BODIES = ["<a/>", "<a>é Ἰλιάς</a>", "<a>café</a>", "", "text\r\nlines\n", "<a>&amp;</a>"]


def scenarios(rng, tier, mc):
    n = 0
    for c in mc:
        n += 1
        yield {"id": "mc%d" % n, "class": "every call", "call": c, "endpoint": "http://localhost/cts", "body": "<a/>", "robj": n % 2 == 0, "explicit": n % 3 == 0, "doc": []}
    for _ in range(2500 if tier == "quick" else 12000):
        n += 1
        c = {"m": m for m in [rng.choice(mc)["m"]]}
        base = dict(rng.choice(mc))
        a = {k: (list(v) if isinstance(v, list) else v) for k, v in base["a"].items()}
        if a["urn"]:
            a["urn"] = [rng.choice(VALUES)]
        if a["inv"]:
            a["inv"] = [rng.choice(["annotsrc", "a b", "é&x=1"])]
        if a["level"]:
            a["level"] = [str(rng.randint(1, 5))]
        if a["ref"]:
            a["ref"] = [rng.choice(["1", "1.pr", "1.1-1.2", "1.1.1-2", "1@Arma[1]-2@x", "א.ב", "1.1-1.1.1.2"])]
        if a["context"]:
            a["context"] = [str(rng.randint(0, 3))]
        c = {"m": base["m"], "a": a, "dinv": [rng.choice(["inv1", "ñ"])] if rng.random() < .4 else []}
        body = rng.choice(BODIES)
        cs = rng.choice([None, "utf-8", "utf-16"] + (["ISO-8859-1", "iso-8859-1"] if "Ἰ" not in body else []))
        yield {"id": "c%d" % n, "class": "one call", "call": c, "endpoint": rng.choice(["http://localhost/cts", "http://x.org:80/a/b.xq?v=1", "https://é.org/c/", "http://x.org/cts?k=a&l=b%20c"]).replace("é", "e"),
               "body": body, "charset": cs, "mime": rng.choice(["application/xml", "text/xml"]), "robj": rng.random() < .5, "explicit": rng.random() < .3, "doc": [],
               "faults": [rng.choice(["500", "404", "503", "drop", "slow"])] if rng.random() < .2 else []}
    for k in range(500 if tier == "quick" else 2500):
        d = docgen.document(rng, limit=50, blanks=True)
        scn = ctsapi.setting(rng, d["doc"], d["sch"])
        scn.update({"id": "o%d" % k, "class": "objects", "ops": ctsapi.history(rng, scn, 10, faults=.05)})
        yield scn


execute = ctsapi.execute
