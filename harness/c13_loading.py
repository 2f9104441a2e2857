"""C13: repositories on disk become the inventory they describe."""
import repoops
MC = [("MCRepo.tla", "MCRepo.cfg")]
MC_THOROUGH = [("MCRepo.tla", "MCRepo.cfg"), ("MCRepo.tla", "MCRepoBig.cfg")]
TRACE = ("TraceRepo.tla", "Trace.cfg")
REQUIRED_OPS = ["load"]
TIMEOUT = 60
ASSUMPTIONS = ["faults: metadata or text files missing, cut, empty, replaced by a directory, text without citation scheme",
               "an identifier has one class and language in all folders; identifiers agree with the directories"]
DOC = None


def scenarios(rng, tier, mc):
    base, docs = repoops.repository(rng, 1, 0, 1)
    if len(mc) > 500 and tier == "quick":
        mc = rng.sample(mc, 500)
    for n, m in enumerate(mc[:8000]):
        for f in m["repo"]:
            for g in f:
                for w in g["works"]:
                    for t in w["texts"]:
                        t["cit"] = repoops.pats(docs[0])
        yield {"id": "mc%d" % n, "class": "specification repository", "repo": m["repo"], "rules": m["rules"], "strict": m["strict"], "undis": n % 5 == 0,
               "docs": docs, "root": "tic", "invs": ["i", "j"]}
    for n in range(1500 if tier == "quick" else 6000):
        repo, docs = repoops.repository(rng, rng.randint(1, 4), rng.choice([0, .2, .5]))
        scn = {"id": "r%d" % n, "class": "%d folders" % len(repo), "repo": repo, "docs": docs, "strict": rng.random() < .4, "undis": rng.random() < .3}
        repoops.disposition(rng, scn)
        yield scn


execute = repoops.execute
