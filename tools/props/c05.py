"""C05: selectors (spec/Css.tla, GenSel.tla, SelTrace.tla)."""
from xml.sax.saxutils import quoteattr

import lib
import optrun
import svgmodel

NAMES = ["g", "path", "svg", "linearGradient"]
# fixed documents every enumerated selector is asked about
DOCS = [
    '<g class="a" data-n="v"><path class="a b" id="x" fill="red"/><path data-n="v w" class="b"/><g/></g><path id="y" class="a:b" data-n="v-w"/><linearGradient viewBox="0 0 1 1"/>',
    '<g id="x"><!-- c --></g><g><g class="b" data-n="qvq"><path class="a"/></g><g class="a"><path/><path class="b"/><linearGradient/></g></g><text>t</text>',
    '<g class="b"><g class="a"><g class="a b" id="y"><path href="u"/></g></g></g><path xlink:href="u"/>',
]
HEAD = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">%s</svg>'


def text(doc):
    """The text of a generated document: each element hangs below the ancestor-or-self of the last one that is `up` levels down."""
    kids, stack, els = {0: []}, [0], doc
    for i, e in enumerate(els, 1):
        depth = min(e["up"], len(stack) - 1)
        stack = stack[:depth + 1]
        kids[stack[-1]].append(i)
        kids[i] = []
        stack.append(i)

    def write(i):
        e = els[i - 1]
        at = [("id", e["id"]), ("class", e["cls"]), ("data-n", e["data"])] + ([tuple(e["ex"].split("=", 1))] if e["ex"] else [])
        body = {"": "", "t": "t", "c": "<!--c-->", "p": "<?p q?>"}[e["co"]] + "".join(write(k) for k in kids[i])
        return "<%s%s>%s</%s>" % (e["n"], "".join(" %s=%s" % (a, quoteattr(v)) for a, v in at if v), body, e["n"])
    return HEAD % "".join(write(k) for k in kids[0])


def run(c):
    (drv,) = lib.build_driver("h_css")
    every = sorted({t["sel"] for t in c.tlc("GenSel").tagged})
    c.extra["selectors_enumerated"] = len(every)
    single = [s for s in every if not any(x in s for x in " >+~") or "[" in s and not any(x in s.replace("~=", "") for x in " >+~")]
    some = single + optrun.sample(every, len(every), c.seed)
    cases = []
    for d in DOCS:
        for k in range(0, len(some), 200):
            cases.append({"svg": HEAD % d, "sels": some[k:k + 200]})
    sim = c.simulate("GenSel", 8000 if c.thorough else 1200, cfg="GenSelSim", depth=20).tagged
    by = {}
    for t in sim:
        by.setdefault(text(t["doc"]), []).append(t["sel"])
    cases += [{"svg": s, "sels": sorted(set(q))} for s, q in sorted(by.items())]
    for x in cases:
        x.update(props=[], names=NAMES)
    c.sample(cases[-1])
    recs, kept = [], []
    for r in c.drive(drv, cases):
        a = r.get("answer", {})
        if "sels" not in a:
            c.violation("driver-" + lib.digest(r["svg"]), r.get("crash") or str(a), r)
            continue
        doc = svgmodel.read(r["svg"])
        els = [i for i, n in enumerate(doc["nodes"], 1) if n["k"] == "e"]
        asked = [{"list": [svgmodel.selector(x) for x in svgmodel.split_top(s, ",")], "panic": x.get("panic", ""), "bad": x.get("bad", False),
                  "ans": {k: x.get(k, []) for k in ("whole", "again", "below", "matching")}} for s, x in zip(r["sels"], a["sels"])]
        recs.append({"doc": doc, "els": els, "asked": asked, "names": NAMES, "closest": a["closest"]})
        kept.append(r)
    c.extra["selector_document_pairs"] = sum(len(r["asked"]) for r in recs)
    for i, t in c.validate("SelTrace", recs, chunk=(len(recs) + 3) // 4):
        r = kept[i]
        s = r["sels"][t["q"] - 1] if t["q"] else "closest"
        c.violation("%s-%s" % (lib.digest(r["svg"]), lib.digest(s)), "%s on %s: %s" % (s, r["svg"], t["why"]), {"svg": r["svg"], "sel": s, "why": t["why"]})
    def wrong(key):
        def f(r):
            r["asked"][0]["ans"][key] = (r["asked"][0]["ans"][key] + [1])[1 if r["asked"][0]["ans"][key] else 0:]
        return f
    if recs:
        c.binding("SelTrace", recs[0], [wrong("whole"), wrong("matching"), wrong("again"), lambda r: r["closest"][0].append(0) or r["closest"][0].__setitem__(0, 1),
                                        lambda r: r["asked"][0].update(bad=True), lambda r: r["asked"][0].update(panic="x")])
    c.assumptions += ["attribute values in the documents are in the form the reader keeps them", "no element contains white space only"]
