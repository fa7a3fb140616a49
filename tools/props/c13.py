"""C13: targeted jobs change exactly what they name (spec/Exact.tla, GenExact.tla, ExactTrace.tla)."""
import json
from xml.sax.saxutils import escape

import lib
import optrun
import svgmodel
import xmltok

NS = [("xmlns", "http://www.w3.org/2000/svg"), ("xmlns:xlink", "http://www.w3.org/1999/xlink"),
      ("xmlns:inkscape", "http://www.inkscape.org/namespaces/inkscape"), ("xmlns:e", "urn:e")]


def attrs(at):
    return "".join(' %s="%s"' % (a["a"], escape(a["v"], {'"': "&quot;"})) for a in at)


def write(n):
    v = {a["a"]: a["v"] for a in n["at"]}
    if n["n"] == "#text":
        return escape(v["t"])
    if n["n"] == "#comment":
        return "<!--%s-->" % v["t"]
    if n["n"] == "#pi":
        return "<?%s %s?>" % (v["n"], v["t"])
    if n["n"] == "#doctype":
        return "<!DOCTYPE %s>" % v["t"]
    kids = "".join(map(write, n["kids"]))
    return "<%s%s%s" % (n["n"], attrs(n["at"]), ">%s</%s>" % (kids, n["n"]) if kids else "/>")


def build(t):
    root = {"n": "svg", "at": [{"a": a, "v": v} for a, v in NS] + t["root"], "kids": t["kids"]}
    return "".join(map(write, t["before"])) + write(root) + "".join(map(write, t["after"]))


def split(n):
    return n.split(":", 1) if ":" in n else ["", n]


def read(text):
    nodes = xmltok.read(text)
    names = sorted({a for n in nodes for a, _ in n["at"]} | {n["n"] for n in nodes})
    rank = {x: i for i, x in enumerate(names)}
    for n in nodes:
        n["px"], n["l"] = split(n["n"])
        n["rk"] = rank[n["n"]]
        raw = dict(n["at"])
        n["raw"] = raw
        n["id"] = raw.get("id", "")
        n["cls"] = raw.get("class", "").split()
        n["inl"] = svgmodel.model_decls(svgmodel.declarations(raw["style"])) if "style" in raw else []
        n["at"] = [dict(zip(("px", "l"), split(a)), n=a, v=v, part=a.split("-")[0], rk=rank[a]) for a, v in n["at"]]
    return {"nodes": nodes, "rules": []}


ORDER = ["id", "width", "height", "x", "x1", "x2", "y", "y1", "y2", "cx", "cy", "r", "fill", "stroke", "marker", "d", "points"]


def pats(*items):
    return [{"el": e, "at": a, "val": v} for e, a, v in items]


def sel(*texts):
    return [svgmodel.selector(t) for t in texts]


def J(name, free=(), **kw):
    return dict(kw, job=name, free=list(free))


X = "urn:e"
RUNS = [
    ("removeComments", {}, J("removeComments", keep=["!"])),
    ("removeComments", {"preservePatterns": ["^keep", "^zz"]}, J("removeComments", keep=["keep", "zz"])),
    ("removeComments", {"preservePatterns": []}, J("removeComments", keep=[])),
    ("removeDoctype", True, J("removeDoctype")),
    ("removeXMLProcInst", True, J("removeXMLProcInst")),
    ("removeMetadata", True, J("removeMetadata")),
    ("removeTitle", True, J("removeTitle")),
    ("removeDesc", {}, J("removeDesc", any=False)),
    ("removeDesc", {"removeAny": True}, J("removeDesc", any=True)),
    ("removeScripts", True, J("removeScripts")),
    ("removeStyleElement", True, J("removeStyleElement")),
    ("removeRasterImages", True, J("removeRasterImages")),
    ("removeDimensions", True, J("removeDimensions", ["viewBox"])),
    ("removeViewBox", True, J("removeViewBox")),
    ("removeXMLNS", True, J("removeXMLNS")),
    ("removeUnusedNS", True, J("removeUnusedNS")),
    ("removeEditorsNSData", {}, J("removeEditorsNSData", more=[])),
    ("removeEditorsNSData", {"additionalNamespaces": [X]}, J("removeEditorsNSData", more=[X])),
    ("removeEmptyAttrs", True, J("removeEmptyAttrs")),
    ("removeEmptyText", {}, J("removeEmptyText", text=True, tspan=True, tref=True)),
    ("removeEmptyText", {"text": False}, J("removeEmptyText", text=False, tspan=True, tref=True)),
    ("removeEmptyText", {"tspan": False}, J("removeEmptyText", text=True, tspan=False, tref=True)),
    ("removeEmptyText", {"tref": False, "text": False}, J("removeEmptyText", text=False, tspan=True, tref=False)),
    ("removeEmptyContainers", True, J("removeEmptyContainers")),
    ("removeElementsByAttr", {"id": ["x"], "class": []}, J("removeElementsByAttr", id=["x"], **{"class": []})),
    ("removeElementsByAttr", {"id": [], "class": ["a"]}, J("removeElementsByAttr", id=[], **{"class": ["a"]})),
    ("removeElementsByAttr", {"id": ["t", "y"], "class": ["b"]}, J("removeElementsByAttr", id=["t", "y"], **{"class": ["b"]})),
    ("removeAttrs", {"attrs": ["fill"]}, J("removeAttrs", pats=pats(([], ["fill"], [])), current=False)),
    ("removeAttrs", {"attrs": ["rect:fill", "path:stroke"]}, J("removeAttrs", pats=pats((["rect"], ["fill"], []), (["path"], ["stroke"], [])), current=False)),
    ("removeAttrs", {"attrs": ["*:fill:red"]}, J("removeAttrs", pats=pats(([], ["fill"], ["red"])), current=False)),
    ("removeAttrs", {"attrs": ["(fill|stroke)"], "preserveCurrentColor": True}, J("removeAttrs", pats=pats(([], ["fill", "stroke"], [])), current=True)),
    ("removeAttrs", {"attrs": ["rect;class", "e:label"], "elemSeparator": ";"}, J("removeAttrs", pats=pats((["rect"], ["class"], []), ([], ["e:label"], [])), current=False)),
    ("removeAttributesBySelector", [{"selector": "rect", "attributes": ["fill", "width"]}],
     J("removeAttributesBySelector", items=[{"sels": sel("rect"), "attrs": ["fill", "width"]}])),
    ("removeAttributesBySelector", [{"selector": ".a,#x", "attributes": ["id", "stroke"]}, {"selector": "g > path", "attributes": ["fill", "class", "d"]}],
     J("removeAttributesBySelector", items=[{"sels": sel(".a", "#x"), "attrs": ["id", "stroke"]}, {"sels": sel("g > path"), "attrs": ["fill", "class", "d"]}])),
    ("sortAttrs", {}, J("sortAttrs", order=ORDER, front=True)),
    ("sortAttrs", {"xmlnsOrder": "alphabetical"}, J("sortAttrs", order=ORDER, front=False)),
    ("sortAttrs", {"order": ["class", "x", "data"]}, J("sortAttrs", order=["class", "x", "data"], front=True)),
    ("sortDefsChildren", True, J("sortDefsChildren")),
    ("addAttributesToSVGElement", {"attributes": {"data-a": "new", "role": "img"}}, J("addAttributesToSVGElement", ["data-a", "role"], attrs=[["data-a", "new"], ["role", "img"]])),
    ("addClassesToSVGElement", {"classNames": ["b", "n"]}, J("addClassesToSVGElement", ["class"], classes=["b", "n"])),
    ("addClassesToSVGElement", {"className": "n  a"}, J("addClassesToSVGElement", ["class"], classes=["n", "a"])),
]
# flags that turn a job off: nothing may change
OFF = ["removeDoctype", "removeXMLProcInst", "removeMetadata", "removeTitle", "removeScripts", "removeStyleElement", "removeRasterImages", "removeDimensions",
       "removeViewBox", "removeXMLNS", "removeUnusedNS", "removeEmptyAttrs", "removeEmptyContainers", "sortDefsChildren"]
RUNS += [(n, False, J("none")) for n in OFF]


def label(name, cfg):
    return name if cfg in (True, {}) else name + json.dumps(cfg, separators=(",", ":"), sort_keys=True)


def project(r):
    if "crash" in r:
        return None, [], [("driver", r["crash"], "")]
    outs, bad, after, names = r["outs"], [], [], []
    if "svg" not in outs[0]:
        return None, [], [("none", "no output: %s" % outs[0], "")]
    try:
        before = read(outs[0]["svg"])
    except (xmltok.Bad, svgmodel.Unreadable) as ex:
        return None, [], [("none", "unreadable: %s" % ex, outs[0]["svg"])]
    for (name, cfg, job), x in zip(RUNS, outs[1:]):
        if "svg" not in x:
            bad.append((label(name, cfg), "no output: %s" % x, ""))
            continue
        try:
            after.append({"doc": read(x["svg"]), "job": job})
            names.append((label(name, cfg), x["svg"]))
        except (xmltok.Bad, svgmodel.Unreadable) as ex:
            bad.append((label(name, cfg), "unreadable: %s" % ex, x["svg"]))
    return {"before": before, "after": after}, names, bad


def judge(c, drv, texts):
    results = optrun.drive(c, drv, texts, [("none", "none")] + [(n, {n: x}) for n, x, _ in RUNS])
    recs = []
    for r, (rec, names, bad) in zip(results, lib.pmap(project, results)):
        for name, why, out in bad:
            c.violation("%s-%s" % (name, lib.digest(r["svg"])), "%s: %s" % (name, why), {"svg": r["svg"], "job": name, "out": out, "why": why})
        if rec:
            recs.append((rec, names, r["svg"]))
    c.extra["outputs_judged"] = sum(len(x[1]) for x in recs)
    for i, t in c.validate("ExactTrace", [x[0] for x in recs], chunk=(len(recs) + 7) // 8):
        _, names, svg = recs[i]
        name, out = names[t["after"] - 1]
        c.violation("%s-%s" % (name, lib.digest(svg)), "%s: %s expected %s, is %s: %s -> %s" % ((name,) + tuple(t["why"]) + (svg, out)),
                    {"svg": svg, "job": name, "out": out, "why": t["why"][0]})


def canaries(c):
    """A run recorded as another job's, or with one part altered, has to be refused."""
    svg = build({"before": [], "after": [], "root": [], "kids": [{"n": "title", "at": [], "kids": []}, {"n": "path", "at": [{"a": "fill", "v": "red"}], "kids": []}]})
    cut = svg.replace("<title/>", "")
    moved = svg.replace('<title/><path fill="red"/>', '<path fill="red"/><title/>')
    t, n = J("removeTitle"), J("none")
    cases = [(cut, t, 0), (svg, n, 0), (svg, t, 1), (cut, n, 1), (moved, n, 1), (cut.replace("red", "blue"), t, 1), (cut.replace("<path", "<path id='k'"), t, 1)]
    recs = [{"before": read(svg), "after": [{"doc": read(x), "job": j}]} for x, j, _ in cases]
    refused = {i for i, _ in c.validate("ExactTrace", recs)}
    c.validated -= len(recs)
    if refused != {i for i, x in enumerate(cases) if x[2]}:
        raise lib.ToolError("the specification misjudges fixed pairs: %s" % sorted(refused))


def run(c):
    (drv,) = lib.build_driver("h_opt")
    canaries(c)
    small = lib.dedupe(c.tlc("GenExact").tagged)
    pairs = lib.dedupe(c.tlc("GenExact", consts={"MaxItems": 2}).tagged)
    sim = lib.dedupe(c.simulate("GenExact", 1500 if c.thorough else 150, cfg="GenExactSim", depth=9).tagged)
    c.extra["documents_enumerated"] = len(pairs)
    docs = optrun.sample(small, 3000 if c.thorough else 700, c.seed) + optrun.sample(pairs, 6000 if c.thorough else 1500, c.seed) + sim
    texts = sorted({build(d) for d in docs})
    c.sample(texts[len(texts) // 2])
    judge(c, drv, texts)
    c.assumptions += ["the document written without any job is the starting point, so that only the job's own changes are judged"]
