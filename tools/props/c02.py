"""C02: attributes as an ordered map, classes as an ordered set (spec/Attrs.tla)."""
import lib


def falsify(k):
    """Another answer to one query after the first operation."""
    def f(r):
        v = r["obs"][0]["view"]
        v[k] = v[k][:-1] if isinstance(v[k], list) and v[k] else v[k] + [v[k]] if isinstance(v[k], list) else not v[k] if isinstance(v[k], bool) else v[k] + (1 if isinstance(v[k], int) else "x")
    return f


def run(c):
    (drv,) = lib.build_driver("h_attr")
    # 1. every short attribute list, every operation from it
    cases = lib.dedupe(c.tlc("AttrsMC", consts={"MaxLen": 2}).tagged)
    c.extra["exhaustive"] = True
    # 2. long histories
    sim = c.simulate("AttrsMC", 2000 if c.thorough else 250, cfg="AttrsSim", depth=42)
    cases += sim.tagged
    recs = c.drive(drv, cases)
    for r in recs:
        if "crash" in r:
            r["obs"] = [{"ret": [], "view": {}, "note": r["crash"]}]
        r["ops"] = r["ops"][:len(r["obs"])]
    c.extra["operations_replayed"] = sum(len(r["ops"]) for r in recs)
    c.sample(cases[len(cases) // 2])
    c.sample(sim.tagged[0])
    for i, t in c.validate("AttrsTrace", recs, chunk=(len(recs) + 3) // 4):
        r = recs[i]
        c.violation("%s-%s" % (t["op"], lib.digest([r["at"], r["ops"][:t["step"]]])),
                    "after step %d (%s): %s %s" % (t["step"], t["op"], t["why"], t["detail"]), r)
    r = recs[len(recs) // 2]
    if "crash" not in r:
        c.binding("AttrsTrace", r, [falsify(k) for k in r["obs"][0]["view"]])
    c.assumptions += ["class attributes whose text repeats a token are outside this check"]
