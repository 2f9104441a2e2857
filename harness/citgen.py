"""Citation patterns as structures (the specification's representation) and their texts."""


def text(p, mode="num", quote=None):
    k, out = 0, ""
    for st in p:
        out += st["sep"] + st["node"]
        for pr in st["preds"]:
            if pr["attr"]:
                k += 1
                q = quote or pr["q"]
                out += "[" + pr["pre"] + "@" + pr["attr"] + "=" + q + ("$%d" % k if mode == "num" else "?") + q + pr["post"] + "]"
            else:
                out += "[" + pr["pre"] + "]"
    return out


def holes(p):
    return sum(1 for st in p for pr in st["preds"] if pr["attr"])


CONSTS = ["@type='text-part'", "@n='1'", "@subtype='x_y'", "@type='edition'", "@n='12'", "@type=\"a,b\"", "@n=\"3\"",
          "self::tei:l or self::tei:p", "position()=1", "not(@type='note')", "@xml:lang='grc'", "@n", "@n='007'"]
NODES = ["tei:div", "tei:l", "*", "tei:lg", "tei:ab", "tei:seg", "tei:p", "tei:text", "tei:div1"]


def step(rng, ph, attr="n"):
    preds = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        preds.append({"pre": rng.choice(CONSTS), "attr": "", "q": "", "post": ""})
    if ph:
        pre, post = rng.choice([("", "")] * 6 + [("@type='x-y' and ", ""), ("", " and @subtype='b'"), ("", " or @type='9'"), ("not(@part) and ", "")])
        preds.insert(rng.randint(0, len(preds)), {"pre": pre, "attr": attr, "q": rng.choice(["'", "'", "\""]), "post": post})
    return {"sep": rng.choice(["/", "/", "/", "//"]), "node": rng.choice(NODES), "preds": preds}


def front(rng, n):
    return [step(rng, False) for _ in range(n)]


def pattern(rng, depth):
    p = front(rng, rng.randint(0, 3))
    for d in range(depth):
        p.append(step(rng, True, rng.choice(["n", "n", "n", "xml:id"])))
        if d < depth - 1 and rng.random() < .25:
            p.append(step(rng, False))
    return p


NAMES = ["book", "poem", "line", "chapter", "section", "l&v", "a<b", "vers \"x\"", "é", "page", "x'y"]
