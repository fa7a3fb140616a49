"""C14: outputs are well-formed and names keep their namespace (spec/Xml.tla, GenNs.tla, NsTrace.tla)."""
import lib
import optrun
import xmltok
from props import c03

JOBS = """precheck addAttributesToSVGElement addClassesToSVGElement cleanupListOfValues convertOneStopGradients convertStyleToAttrs removeAttributesBySelector
removeAttrs removeDimensions removeElementsByAttr removeOffCanvasPaths removeRasterImages removeScripts removeStyleElement removeTitle removeViewBox reusePaths
removeXMLNS prefixIds removeXlink""".split()
PARAMS = {"addAttributesToSVGElement": {"attributes": {"data-new": "1"}}, "addClassesToSVGElement": {"classNames": ["n"]}, "removeAttributesBySelector": [{"selector": "path", "attributes": ["fill"]}],
          "removeAttrs": {"attrs": ["*:fill:*", "*:label:*"]}, "removeElementsByAttr": {"id": ["u"], "class": ["c"]}, "prefixIds": {"prefix": "p"},
          "removeDimensions": True, "removeOffCanvasPaths": True, "removeRasterImages": True, "removeScripts": True, "removeStyleElement": True, "removeTitle": True, "removeViewBox": True, "removeXMLNS": True,
          "reusePaths": True, "convertOneStopGradients": True}
RUNS = [(j, {j: PARAMS.get(j, {})}) for j in JOBS] + [(optrun.camel(j), optrun.single(j)) for j in optrun.DEFAULT_JOBS]
RUNS += [("removeXlink", {"removeXlink": {"includeLegacy": True}}), ("default", "default"), ("safe", "safe"), ("none", "none")]
EVERYTHING = {k: v for _, cfg in RUNS if isinstance(cfg, dict) for k, v in cfg.items() if k not in ("removeXMLNS", "precheck")}
RUNS += [("everything", EVERYTHING)]

# document outside the generated space that is listed as a known finding
NOTED = '<svg xmlns="http://www.w3.org/2000/svg"><path d="M0 0h9v9z"/><path d="M0 0h9v9z"/></svg>'


def project(r):
    if "crash" in r:
        return None, [], [("driver", r["crash"], "")]
    before, after, names, bad, seen = c03.read(r["svg"]), [], [], [], set()
    for (name, _), x in zip(RUNS, r["outs"]):
        if "refused" in x:
            continue
        if "svg" not in x:
            bad.append((name, "no output: %s" % x, ""))
            continue
        if x["svg"] in seen and name not in ("removeXMLNS",):
            continue
        if name not in ("removeXMLNS", "removeXlink", "reusePaths", "everything"):
            seen.add(x["svg"])
        try:
            after.append({"doc": c03.read(x["svg"]), "job": name})
            names.append((name, x["svg"]))
        except xmltok.Bad as ex:
            bad.append((name, "not well-formed: %s" % ex, x["svg"]))
    return {"before": before, "after": after}, names, bad


def judge(c, drv, texts):
    results = optrun.drive(c, drv, texts, RUNS, name="ns")
    recs = []
    for r, (rec, names, bad) in zip(results, lib.pmap(project, results)):
        for name, why, out in bad:
            c.violation("%s-%s" % (name, lib.digest(r["svg"])), "%s: %s: %s -> %s" % (name, why, r["svg"], out), {"svg": r["svg"], "job": name, "out": out, "why": why})
        if rec:
            recs.append((rec, names, r["svg"]))
    c.extra["outputs_judged"] = sum(len(r["outs"]) for r in results if "outs" in r)
    for i, t in c.validate("NsTrace", [x[0] for x in recs], chunk=(len(recs) + 7) // 8):
        _, names, svg = recs[i]
        name, out = names[t["after"] - 1]
        c.violation("%s-%s" % (name, lib.digest(svg)), "%s: %s: %s: %s -> %s" % (name, t["why"], t["what"], svg, out), {"svg": svg, "job": name, "out": out, "why": t["why"]})


def canaries(c):
    a = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:e="urn:e">%s</svg>'
    cases = [("<e:g/>", "<g/>", 1), ("<e:g/>", "<e:g/>", 0), ("<e:g/>", "<k:g/>", 1), ("<g e:a='1'/>", "<g a='1'/>", 1), ("<g e:a='1'/>", "<g xmlns:e='urn:x' e:a='1'/>", 1), ("<rect/>", "<path/>", 0), ("<rect/>", "<rect/><p xmlns='urn:p'/>", 1), ("<e:g/><g/>", "", 0)]
    recs = [{"before": c03.read(a % x), "after": [{"doc": c03.read(a % y), "job": "x"}]} for x, y, _ in cases]
    refused = {i for i, _ in c.validate("NsTrace", recs)}
    c.validated -= len(recs)
    if refused != {i for i, x in enumerate(cases) if x[2]}:
        raise lib.ToolError("the specification misjudges fixed pairs: %s" % sorted(refused))


def run(c):
    (drv,) = lib.build_driver("h_opt")
    canaries(c)
    small = lib.dedupe(c.tlc("GenNs").tagged)
    pairs = lib.dedupe(c.tlc("GenNs", consts={"MaxItems": 2}).tagged)
    sim = lib.dedupe(c.simulate("GenNs", 1500 if c.thorough else 100, cfg="GenNsSim", depth=8).tagged)
    c.extra["documents_enumerated"] = len(pairs)
    one = [d for d in small if len(d["kids"]) == 1 or d in small[:400]]
    docs = optrun.sample(small, 12000 if c.thorough else 1000, c.seed) + one + optrun.sample(pairs, 12000 if c.thorough else 800, c.seed) + sim
    texts = sorted({c03.write(d) for d in docs})
    c.sample(texts[len(texts) // 2])
    judge(c, drv, texts + [NOTED])
    c.assumptions += ["which elements jobs may remove is judged elsewhere; here what is left must mean what it meant"]
