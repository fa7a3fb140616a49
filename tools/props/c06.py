"""C06: the cascade (spec/Css.tla, GenCascade.tla, StyleTrace.tla)."""
import lib
import optrun
import svgmodel
import svgtext

PROPS = ["fill", "opacity", "stroke-width", "clip-path", "visibility", "marker-mid", "color"]
# documents outside the generated space that are listed as known findings
NOTED = ['<svg xmlns="http://www.w3.org/2000/svg" style="mix-blend-mode:multiply"><path d="M0 0h10v10z"/></svg>']


def run(c):
    (drv,) = lib.build_driver("h_css")
    small = lib.dedupe(c.tlc("GenCascade", consts={"MaxDecs": 2}).tagged)
    sim = lib.dedupe(c.simulate("GenCascade", 6000 if c.thorough else 1200, cfg="GenCascadeSim", depth=12).tagged)
    if c.thorough:
        small += optrun.sample(lib.dedupe(c.tlc("GenCascade", consts={"MaxDecs": 3}, heap="10g").tagged), 60000, c.seed)
    duels = lib.dedupe(c.tlc("GenCascade", cfg="GenDuel", consts={"MaxDecs": 3}).tagged)
    if not c.thorough:
        duels = [d for d in duels if len(d["decs"]) == 2] + optrun.sample([d for d in duels if len(d["decs"]) == 3], 1000, c.seed)
    texts = sorted({svgtext.build(d) for d in small + sim + duels})
    c.sample(texts[len(texts) // 2])
    recs, kept = [], []
    cases = [{"svg": t, "sels": [], "props": PROPS, "names": []} for t in texts] + [{"svg": t, "sels": [], "props": ["mix-blend-mode"], "names": []} for t in NOTED]
    for r in c.drive(drv, cases):
        a = r.get("answer", {})
        if "styles" not in a:
            c.violation("driver-" + lib.digest(r["svg"]), r.get("crash") or str(a), r)
            continue
        doc = svgmodel.read(r["svg"])
        els = [i for i, n in enumerate(doc["nodes"], 1) if n["k"] == "e"]
        got = []
        for s in a["styles"]:
            row = []
            for p, x in zip(r["props"], s.get("props", [{}] * len(r["props"]))):
                v = svgmodel.value(p, x["v"]) if x.get("set") else None
                row.append({"panic": s.get("panic", x.get("panic", "")), "set": x.get("set", False), "mode": x.get("mode", ""), "opaque": x.get("opaque", False), "v": v or ["s", "?" + str(x.get("v", ""))]})
            got.append(row)
        recs.append({"doc": doc, "els": els, "props": r["props"], "refused": [s.get("refused", "") for s in a["styles"]], "got": got})
        kept.append(r["svg"])
    c.extra["documents"] = len(recs)
    c.extra["answers_judged"] = sum(len(r["els"]) * len(r["props"]) for r in recs)
    for i, t in c.validate("StyleTrace", recs, chunk=(len(recs) + 3) // 4):
        c.violation("%s-%s-%s" % (t["p"], t["el"], lib.digest(kept[i])), "%s of element %s in %s: %s" % (t["p"], t["el"], kept[i], t["why"]), {"svg": kept[i], "why": t})
    if recs:
        def wrong(**kw):
            return lambda r: r["got"][0][0].update(kw)
        c.binding("StyleTrace", recs[0], [wrong(set=True, mode="definite", opaque=False, v=["c", "123456ff"]), wrong(panic="x"), wrong(opaque=True),
                                          lambda r: r["refused"].__setitem__(0, "no")])
    c.assumptions += ["inherit is only used with inherited properties", "a style sheet with state pseudo-classes may be refused as a whole"]
