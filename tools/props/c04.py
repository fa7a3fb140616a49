"""C04: walking documents (spec/Visit.tla, GenVisit.tla, VisitTrace.tla)."""
import json

import lib
import optrun

TAGS = {"text": "%s", "comment": "<!--%s-->", "pi": "<?%s x?>", "css": "%s{fill:red}"}


def write(t):
    kids = {}
    for i, n in enumerate(t, 1):
        kids.setdefault(n["p"], []).append(i)

    def one(i):
        n = t[i - 1]
        if n["k"] in TAGS:
            return TAGS[n["k"]] % n["n"]
        ns = ' xmlns="http://www.w3.org/2000/svg"' if n["k"] == "svg" else ""
        return '<%s id="%s"%s>%s</%s>' % (n["k"], n["n"], ns, "".join(one(k) for k in kids.get(i, [])), n["k"])
    return "".join(one(k) for k in kids[0])


def script(s):
    return {k: v if isinstance(v, (str, dict)) else {} for k, v in s.items()}


def judge(c, drv, cases):
    inputs = [{"svg": write(x["t"]), "script": script(x["script"])} for x in cases]
    recs, kept = [], []
    for x, inp, r in zip(cases, inputs, c.drive(drv, inputs, "visit")):
        if "events" not in r:
            c.violation("walk-" + lib.digest(json.dumps(inp, sort_keys=True)), "no walk: %s: %s" % (r, inp), {"case": x, "why": str(r)})
            continue
        # a style node is known by the selector of its only rule
        events = [[k, n.split("{")[0].split()[0] if k == "style" else n, f] for k, n, f in r["events"]]
        recs.append({"t": x["t"], "script": inp["script"], "events": events, "failed": r["ended"] != "", "skipped": r["skipped"]})
        kept.append(inp)
    c.extra["events_judged"] = sum(len(r["events"]) for r in recs)
    for i, t in c.validate("VisitTrace", recs, chunk=(len(recs) + 7) // 8):
        inp = kept[i]
        c.violation("walk-" + lib.digest(json.dumps(inp, sort_keys=True)), "%s at event %d: %s %s -> %s" % (t["why"], t["at"], inp["svg"], json.dumps(inp["script"]), recs[i]["events"]), {"case": inp, "events": recs[i]["events"], "why": t["why"]})


def canaries(c):
    t = [{"k": "svg", "n": "e1", "p": 0}, {"k": "text", "n": "t2", "p": 1}]
    good = [["document", "", "out"], ["element", "e1", "out"], ["text", "t2", "?"], ["exit_element", "e1", "out"], ["exit_document", "", "out"]]
    base = {"t": t, "script": {"prepare": "", "start": {}, "end": {}}, "events": good, "failed": False, "skipped": False}
    bad = [dict(base, events=good[:2] + good[3:]), dict(base, events=good[:3] + good[2:]), dict(base, events=good[:-1]), dict(base, failed=True), dict(base, skipped=True),
           dict(base, events=[good[0], good[2], good[1]] + good[3:]), dict(base, events=[good[0], ["element", "e1", "in"]] + good[2:])]
    refused = {i for i, _ in c.validate("VisitTrace", [base] + bad)}
    c.validated -= len(bad) + 1
    if refused != set(range(1, len(bad) + 1)):
        raise lib.ToolError("the specification misjudges fixed walks: %s" % sorted(refused))


def run(c):
    (drv,) = lib.build_driver("h_visit")
    canaries(c)
    small = lib.dedupe(c.tlc("GenVisit", consts={"MaxNodes": 5 if c.thorough else 4}).tagged)
    two = lib.dedupe(c.tlc("GenVisit", consts={"MaxNodes": 3, "MaxEffects": 2}).tagged)
    sim = lib.dedupe(c.simulate("GenVisit", 3000 if c.thorough else 300, cfg="GenVisitSim", depth=10).tagged)
    c.extra["cases_enumerated"] = len(small) + len(two)
    cases = optrun.sample(small, 60000 if c.thorough else 8000, c.seed) + optrun.sample(two, 20000 if c.thorough else 4000, c.seed) + optrun.sample(sim, 40000 if c.thorough else 4000, c.seed)
    c.sample("%s %s" % (write(cases[-1]["t"]), json.dumps(cases[-1]["script"])))
    judge(c, drv, cases)
    c.assumptions += ["document type nodes do not survive parsing, so no walk meets one"]
