import argparse, importlib, json, os, sys, time, collections, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw

MODULES = json.load(open(os.path.join(fw.VERIF, "harness", "modules.json")))


def known():
    p = os.path.join(fw.VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(fw.WORK, exist_ok=True)
    try:
        rc = run(a, t0)
    except fw.Machinery as e:
        print("MACHINERY-ERROR property=%s %s" % (a.pid, e))
        return 3
    return rc


def run(a, t0):
    import MyCapytain
    if not os.path.abspath(MyCapytain.__file__).startswith(os.path.abspath(fw.REPO)):
        raise fw.Machinery("MyCapytain imported from %s" % MyCapytain.__file__)
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(MODULES[a.pid])
    rng = random.Random(a.seed * 7919 + sum(map(ord, a.pid)))
    thorough = a.tier == "thorough"

    # ---- 1. design
    design = {"states": 0, "transitions": 0, "runs": []}
    scn_lines = []
    if not a.replay:
        for spec, cfg in (mod.MC_THOROUGH if thorough and hasattr(mod, "MC_THOROUGH") else mod.MC):
            r = fw.tlc(spec, cfg, timeout=850 if not thorough else 7200)
            if r.error:
                raise fw.Machinery("design check %s/%s failed: %s" % (spec, cfg, r.error[:2000]))
            design["states"] += r.distinct
            design["transitions"] += r.generated
            got = [json.loads(x[4:]) for x in sorted(x for x in r.lines if isinstance(x, str) and x.startswith("SCN "))]
            scn_lines += got
            design["runs"].append({"spec": spec, "cfg": cfg, "distinct": r.distinct, "generated": r.generated,
                                   "scenarios_emitted": len(got), "wall_s": round(r.wall, 1)})
    # ---- 2. execute
    if a.replay:
        scns = [json.load(open(a.replay))["scenario"]]
    else:
        scns = list(mod.scenarios(rng, a.tier, scn_lines))
    for n, s in enumerate(scns):
        s.setdefault("id", "s%d" % n)
    traces = fw.execute(mod.execute, scns, timeout=getattr(mod, "TIMEOUT", 20))
    bad = [t for t in traces if "__driver__" in t or "__timeout__" in t]
    traces_ok = [t for t in traces if not ("__driver__" in t or "__timeout__" in t)]
    src = {s["id"]: s for s in scns}
    mism = []
    for t in bad:
        mism.append({"id": t["scn"]["id"], "l": 0,
                     "clause": "no observation: " + (t.get("__driver__") or "timeout").strip().splitlines()[-1],
                     "detail": t.get("__driver__", "timeout"), "trace": {}})
    # ---- 3. validate
    m2, stats = fw.validate(mod.TRACE[0], mod.TRACE[1], traces_ok,
                            timeout=850 if not thorough else 7200)
    mism += m2
    ops = collections.Counter(e.get("op", "?") for t in traces_ok for e in t["ev"])
    if not a.replay:
        for op in getattr(mod, "REQUIRED_OPS", []):
            if not ops.get(op) and not bad:
                raise fw.Machinery("vacuous run: no %s event" % op)
    # ---- verdict
    findings = [k for k in known() if k["property"] == a.pid and k.get("status") == "known"]
    keyf = getattr(mod, "finding_key", lambda scn, m: scn.get("key", scn["id"]))
    hit, viol = {}, []
    for m in mism:
        key = keyf(src[m["id"]], m)
        k = next((k for k in findings if k["key"] == key and k.get("clause", m.get("clause")) == m.get("clause")), None)
        if k is not None:
            hit[k["key"]] = k
        else:
            viol.append(m)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))
    NREP = int(os.environ.get("VERIF_REPLAYS", "5"))
    rdir = os.path.join(fw.VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n in range(max(5, NREP)):
        if not a.replay and os.path.exists(os.path.join(rdir, "%s-%d.json" % (a.pid, n))):
            os.unlink(os.path.join(rdir, "%s-%d.json" % (a.pid, n)))
    for n, m in enumerate(viol[:NREP]):
        path = os.path.join(rdir, "%s-%d.json" % (a.pid, n))
        ev = m["trace"].get("ev", [])
        with open(path, "w") as f:
            json.dump({"property": a.pid, "scenario": src[m["id"]], "clause": m.get("clause"),
                       "position": m["l"], "detail": m.get("detail"), "expected": m.get("exp"),
                       "event": ev[m["l"] - 1] if 0 < m["l"] <= len(ev) else None}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        if a.v or n == 0:
            print("  clause: %s  expected: %s\n  event: %s" % (
                m.get("clause"), json.dumps(m.get("exp"))[:700],
                json.dumps(ev[m["l"] - 1])[:700] if 0 < m["l"] <= len(ev) else m.get("detail")))
    wall = round(time.time() - t0, 1)
    cls = collections.Counter(s.get("class", s.get("key", "x")) for s in scns)
    cov = {
        "states": design["states"] + stats["distinct"],
        "transitions": design["transitions"] + stats["generated"],
        "traces_validated_against_impl": stats["traces"],
        "design_runs": design["runs"],
        "events_validated": stats["events"], "events_by_operation": dict(ops.most_common()),
        "scenario_classes": dict(cls.most_common(40)),
        "scenarios_from_specification": len(scn_lines),
        "samples": [sample(t) for t in pick(traces_ok, 3)],
    }
    ev = {"property": a.pid, "tier": a.tier, "seed": a.seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": cov, "wall_s": wall, "violations": len(viol),
          "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    if not a.replay:
        with open(os.path.join(fw.VERIF, "evidence", a.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: design %d states; %d traces / %d events validated; %d violations (%d known) in %.1fs" % (
        a.pid, a.tier, design["states"], stats["traces"], stats["events"], len(viol), len(hit), wall))
    return 1 if viol else 0


def pick(ts, n):
    if not ts:
        return []
    return [ts[len(ts) * k // n] for k in range(n)][:n]


def sample(t):
    s = json.dumps(t)
    return s if len(s) < 1800 else s[:1800] + "..."


if __name__ == "__main__":
    sys.exit(main())
