"""C01: the document tree under any history of edits (spec/Tree.tla)."""
import lib


def falsify(k):
    """Another answer to one query of the last node after the first edit."""
    def f(r):
        row = r["obs"][0]["view"][-1]
        row[k] = row[k] + [0] if isinstance(row[k], list) else row[k] + 1
    return f


def run(c):
    (drv,) = lib.build_driver("h_dom")
    # 1. the model: every tree over five nodes, every edit from it; transitions are emitted for replay
    mc = c.tlc("TreeMC", env={"EMIT": "1"}, consts={"MaxNode": 4})
    cases = mc.tagged
    c.extra["exhaustive"] = True
    # 2. long seeded histories on a larger pool
    sim = c.simulate("TreeSim", 400 if c.thorough else 60, depth=60)
    cases += sim.tagged
    if c.thorough:
        mc2 = c.tlc("TreeMC", env={"EMIT": "1"}, consts={"MaxNode": 4, "InitElems": 4, "InitTexts": 1})
        cases += mc2.tagged
    recs = c.drive(drv, cases)
    for r in recs:
        if "crash" in r:
            r.setdefault("init", [])
            r["init"] = []
            r["obs"] = [{"panic": r["crash"], "view": [], "ids": []}]
    steps = sum(len(r["obs"]) for r in recs)
    c.extra["edits_replayed"] = steps
    c.sample({k: cases[len(cases) // 2][k] for k in ("kids", "kinds", "ops")})
    c.sample(sim.tagged[0])
    bad = c.validate("TreeTrace", recs, consts={"MaxNode": 11})
    for i, t in bad:
        r = recs[i]
        c.violation("%s-%s" % (t["op"], lib.digest([r["kids"], r["kinds"], r["ops"][:t["step"]]])),
                    "%s after step %d (%s): %s" % (t["why"], t["step"], t["op"], t["detail"]), r)
    r = recs[len(recs) // 2]
    if "crash" not in r:
        c.binding("TreeTrace", r, [falsify(k) for k in range(len(r["obs"][0]["view"][-1]))], consts={"MaxNode": 11})
    c.assumptions += [
        "edits are used within their meaning: a node is never put below itself, a reference node is a child of the stated parent",
        "the driver's node comparison for sorting is by descending creation order",
    ]
