"""C12: references (spec/GenRef.tla, RefTrace.tla)."""
import re
from urllib.parse import unquote

import lib
import optrun
import svgmodel
import svgtext

URL = re.compile(r"""url\(\s*(['"]?)#(.*?)\1\s*\)""")


def urls(v):
    return [unquote(m.group(2)) for m in URL.finditer(v)]


def slots(at):
    """Places of an element that name other elements: place -> names."""
    out = {}
    for a, v in at.items():
        if a in ("href", "xlink:href"):
            if v.strip().startswith("#"):
                out["href"] = [unquote(v.strip()[1:])]
        elif a in ("begin", "end"):
            out[a] = [m.group(1) for m in (re.match(r"\s*([^\s.;()0-9][^\s.;()]*)\.", x) for x in v.split(";")) if m]
        elif a.startswith("aria-") or a == "for":
            out[a] = v.split()
        elif a == "style":
            for p, x, _ in svgmodel.declarations(v):
                out["style " + p] = urls(x)
        elif a not in ("id", "class", "data-k"):
            out[a] = urls(v)
    if at.get("href", "").strip().startswith("#"):
        out["href"] = [unquote(at["href"].strip()[1:])]
    elif "href" in at:
        out.pop("href", None)
    return {k: v for k, v in out.items() if v}


def read(text):
    d = svgmodel.read(text)
    for n in d["nodes"]:
        n["m"] = ""
        n["slots"] = {}
        if n["k"] == "e":
            n["m"] = n["raw"].get("data-k", "")
            n["slots"] = slots(n["raw"])
    for r in d["rules"]:
        r["refs"] = [x["v"][1] for x in r["decls"] if x["v"][0] == "u"]
    return d


def job(preset=False, flat=False, keep=(), rules=True):
    return {"preset": preset, "flat": flat, "keep": list(keep), "rules": rules}


RUNS = [
    ("cleanupIds", {"cleanupIds": {}}, job()),
    ("cleanupIds minify:false", {"cleanupIds": {"minify": False}}, job()),
    ("cleanupIds remove:false", {"cleanupIds": {"remove": False}}, job()),
    ("cleanupIds neither", {"cleanupIds": {"remove": False, "minify": False}}, job(keep=("a", "b", "Long"))),
    ("cleanupIds preserve", {"cleanupIds": {"preserve": ["a"]}}, job(keep=["a"])),
    ("cleanupIds preserve b", {"cleanupIds": {"preserve": ["b", "Long"]}}, job(keep=["b", "Long"])),
    ("cleanupIds prefixes", {"cleanupIds": {"preservePrefixes": ["L"]}}, job(keep=["Long"])),
    ("prefixIds", {"prefixIds": {}}, job()),
    ("prefixIds a", {"prefixIds": {"prefix": "p", "delim": ""}}, job()),
    ("prefixIds classes only", {"prefixIds": {"prefix": "q", "prefixIds": False}}, job(keep=("a", "b", "Long", "1"))),
    ("removeUselessDefs", {"removeUselessDefs": True}, job()),
    ("reusePaths", {"reusePaths": True}, job(rules=False)),
    ("convertOneStopGradients", {"convertOneStopGradients": True}, job(flat=True)),
    ("safe", "safe", job(preset=True)),
    ("default", "default", job(preset=True)),
]


def moves(d):
    """A path whose id is used: the reference is left behind when a shared copy takes the id over."""
    used = {x for n in d["nodes"] for v in n["slots"].values() for x in v} | {x for r in d["rules"] for x in r["refs"]}
    return any(n["k"] == "e" and n["n"] == "path" and (n["id"] in used or n["id"] and d["rules"]) for n in d["nodes"])


def run(c):
    (drv,) = lib.build_driver("h_opt")
    canaries(c)
    small = lib.dedupe(c.tlc("GenRef").tagged)
    sim = lib.dedupe(c.simulate("GenRef", 6000 if c.thorough else 350, cfg="GenRefSim", depth=12).tagged)
    c.extra["documents_enumerated"] = len(small)
    docs = optrun.sample(small, 20000 if c.thorough else 1800, c.seed) + sim
    texts = sorted({svgtext.build(d) for d in docs})
    c.sample(texts[len(texts) // 2])
    judge(c, drv, texts + NOTED)
    c.assumptions += ["references are judged between elements that survive; what a surviving element looks like is C11's subject"]


NS = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" data-k="1">%s</svg>'
# document outside the generated space that is listed as a known finding
NOTED = [NS % '<path data-k="2" id="a" d="M0 0h9v9z" opacity=".5"/><path data-k="3" d="M0 0h9v9z"/><use data-k="4" href="#a" x="20"/>']
REFUSED = [
    ('<path data-k="2" id="a"/><use data-k="3" href="#a"/>', '<path data-k="2" id="b"/><use data-k="3" href="#a"/>'),
    ('<path data-k="2" id="a"/><use data-k="3" href="#a"/>', '<use data-k="3" href="#a"/>'),
    ('<path data-k="2" id="a"/><path data-k="3" id="b"/>', '<path data-k="2" id="a"/><path data-k="3" id="a"/>'),
    ('<path data-k="2" id="a"/><path data-k="3" id="b" fill="url(#a)"/>', '<path data-k="2" id="a"/><path data-k="3" id="b" fill="url(#b)"/>'),
    ('<style>#a{fill:red}</style><path data-k="2" id="a"/>', '<style>#a{fill:red}</style><path data-k="2" id="b"/>'),
    ('<style>g{fill:url(#a)}</style><path data-k="2" id="a"/>', '<style>g{fill:url(#a)}</style><path data-k="2" id="b"/>'),
]
KEPT = [
    ('<path data-k="2" id="a"/><use data-k="3" href="#a"/>', '<path data-k="2" id="b"/><use data-k="3" href="#b"/>'),
    ('<path data-k="2" id="a"/><use data-k="3" href="#c"/>', '<path data-k="2"/><use data-k="3" href="#d"/>'),
    ('<style>#a{fill:red}</style><path data-k="2" id="a"/>', '<style>#b{fill:red}</style><path data-k="2" id="b"/>'),
]


def canaries(c):
    recs = [{"before": read(NS % a), "after": [{"doc": read(NS % b), "job": job()}]} for a, b in REFUSED + KEPT]
    refused = {i for i, _ in c.validate("RefTrace", recs)}
    c.validated -= len(recs)
    if refused != set(range(len(REFUSED))):
        raise lib.ToolError("the specification misjudges fixed pairs: %s" % sorted(refused))
    c.extra["fixed_pairs_judged"] = len(recs)


def project(r):
    """Record for the specification, names and texts of its outputs, and what could not be read."""
    if "crash" in r:
        return None, [], [("driver", r["crash"], "")]
    before = read(r["svg"])
    after, names, bad, seen = [], [], [], set()
    for (name, _, j), x in zip(RUNS, r["outs"]):
        if "svg" not in x:
            bad.append((name, "no output: %s" % x, ""))
            continue
        if name == "reusePaths" and r["svg"] not in NOTED and moves(before):
            j = job(preset=True)
        if (x["svg"], str(j)) in seen:
            continue
        seen.add((x["svg"], str(j)))
        try:
            after.append({"doc": read(x["svg"]), "job": j})
        except svgmodel.Unreadable as ex:
            bad.append((name, "unreadable output: %s" % ex, x["svg"]))
            continue
        names.append((name, x["svg"]))
    return {"before": before, "after": after}, names, bad


def judge(c, drv, texts):
    recs = []
    results = optrun.drive(c, drv, texts, [(n, x) for n, x, _ in RUNS])
    for r, (rec, names, bad) in zip(results, lib.pmap(project, results)):
        for name, why, out in bad:
            c.violation("%s-%s" % (name.replace(" ", "-"), lib.digest(r["svg"])), "%s: %s" % (name, why), {"svg": r["svg"], "out": out})
        if rec:
            recs.append((rec, names, r["svg"]))
    c.extra["outputs_judged"] = c.extra.get("outputs_judged", 0) + sum(len(x[1]) for x in recs)
    for i, t in c.validate("RefTrace", [x[0] for x in recs], chunk=(len(recs) + 7) // 8):
        _, names, svg = recs[i]
        name, out = names[t["after"] - 1]
        c.violation("%s-%s" % (name.replace(" ", "-"), lib.digest(svg)), "%s: %s %s: %s -> %s" % (name, t["why"], t["what"], svg, out), {"svg": svg, "job": name, "out": out, "why": t})
