"""C11: what is painted survives optimisation (spec/Render.tla, GenPaint.tla, RenderTrace.tla)."""
import lib
import optrun
import svgmodel
import svgtext

NS = '<svg xmlns="http://www.w3.org/2000/svg">%s</svg>'
P = '<path d="M0 0h10v10z"%s/>'
# pairs the specification has to tell apart, and pairs it has to take for the same picture
DIFFER = [
    (P % "", P % ' fill="red"'), (P % "", ""), (P % ' stroke="red"', P % ' stroke="red" stroke-width="2"'),
    ("<g opacity='.5'>%s</g>" % (P % ""), P % ""), (P % ' transform="scale(2)"', P % ""),
    ("<style>.a{fill:red}</style>" + P % ' class="a"', P % ' class="a"'),
    ("<style>.a{fill:red}</style>" + P % ' class="a" style="fill:blue"', P % ' fill="red"'),
    (P % ' clip-path="url(#a)"' + '<clipPath id="a"><path d="M0 0h4v4z"/></clipPath>', P % ""),
    ("<g fill='red'>%s</g>" % (P % ""), P % ""), (P % "" + P % ' fill="red"', P % ' fill="red"' + P % ""),
    (P % ' display="none"', P % ""), ("<style>@media print{path{fill:red}}</style>" + P % "", P % ""),
    ('<path d="M0 0h10v10h-3z"/>', P % ""), (P % ' stroke="red" transform="scale(2 1)"', '<path d="M0 0h20v10z" stroke="red" stroke-width="2"/>'),
]
SAME = [
    ("<g>%s</g>" % (P % ""), P % ""), ("<g fill='red'>%s</g>" % (P % ""), P % ' fill="#f00"'),
    ("<style>.a{fill:red}</style>" + P % ' class="a"', P % ' style="fill:red"'),
    (P % ' transform="translate(5 5)"', '<path d="M5 5h10v10z"/>'), ('<rect width="10" height="10"/>', '<path d="M0 0h10v10H0z"/>'),
    (P % "" + P % ' display="none"', P % ""), (P % ' fill="black" stroke="none" opacity="1"', P % ""),
    ("<g opacity='.5'><g opacity='.5'>%s</g></g>" % (P % ""), P % ' opacity=".25"'),
    (P % "" + '<path d="M30 0h10v10z"/>', '<path d="M0 0h10v10zM30 0h10v10z"/>'),
    ('<defs><path id="a" d="M0 0h10v10z"/></defs><use href="#a" x="5"/>', '<path d="M5 0h10v10z"/>'),
]
# documents outside the generated space that are listed as known findings
NOTED = [
    '<style>.a{stroke:lime}.a:hover{fill:yellow}</style>' + P % ' class="a"',
    '<style>g+path{fill:pink}</style><g/>' + P % "",
    '<style>path:first-child{fill:tan}</style><g>' + P % ' fill="red"' + '<path d="M30 0h10v10z" fill="red"/></g>',
    '<style>path:first-child{fill:tan}</style><g><g display="none">' + P % "" + '</g><path d="M30 0h10v10z"/></g>',
]


def canaries(c):
    recs = [{"before": svgmodel.read(NS % a), "after": [{"doc": svgmodel.read(NS % b)}]} for a, b in DIFFER + SAME]
    refused = {i for i, _ in c.validate("RenderTrace", recs)}
    c.validated -= len(recs)
    want = set(range(len(DIFFER)))
    if refused != want:
        raise lib.ToolError("the specification misjudges fixed pairs: missed %s, wrongly refused %s" % (
            [(DIFFER + SAME)[i] for i in sorted(want - refused)], [(DIFFER + SAME)[i] for i in sorted(refused - want)]))
    c.extra["fixed_pairs_judged"] = len(recs)


def judge(c, drv, texts, runs):
    recs = optrun.drive(c, drv, texts, runs)
    out, meta, problems = optrun.project(recs, runs)
    for svg, name, why, text in problems:
        c.violation("%s-%s" % (name, lib.digest(svg)), "%s: %s" % (name, why), {"svg": svg, "job": name, "out": text})
    c.extra["outputs_judged"] = c.extra.get("outputs_judged", 0) + sum(len(o["after"]) for o in out)
    bad = c.validate("RenderTrace", out, chunk=(len(out) + 3) // 4)
    for i, t in bad:
        svg, mm = meta[i]
        name, after = mm[t["after"] - 1]
        c.violation("%s-%s" % (name, lib.digest(svg)),
                    "%s changes the picture (%s) of %s into %s; under %s: %s / %s" % (name, t["why"], svg, after, t["env"], t["a"][:200], t["b"][:200]),
                    {"svg": svg, "job": name, "out": after, "why": t})


def run(c):
    (drv,) = lib.build_driver("h_opt")
    canaries(c)
    ones = lib.dedupe(c.tlc("GenPaint", consts={"MaxDecs": 1}).tagged)
    pairs = lib.dedupe(c.tlc("GenPaint", consts={"MaxDecs": 2}).tagged)
    sim = lib.dedupe(c.simulate("GenPaint", 4000 if c.thorough else 900, cfg="GenPaintSim", depth=9).tagged)
    cond = c.simulate("GenPaint", 3000 if c.thorough else 700, cfg="GenPaintSim", consts={"Family": '"cond"'}, depth=6).tagged
    sim += [d for d in lib.dedupe(cond) if not any(x["a"] == "anim" for x in d["decs"])]
    c.extra["documents_enumerated"] = len(ones) + len(pairs)
    docs = ones + optrun.sample(pairs, 25000 if c.thorough else 5000, c.seed) + sim
    texts = sorted({svgtext.build(d) for d in docs})
    c.sample(texts[len(texts) // 3])
    c.sample(texts[2 * len(texts) // 3])
    runs = [("none", "none")] + [(j, optrun.single(j)) for j in optrun.DEFAULT_JOBS] + [("safe", "safe"), ("default", "default")]
    judge(c, drv, texts + [NS % x for x in NOTED], runs)
    c.assumptions += [
        "antialiasing and strokes that reach from one outline into a neighbouring one are not modelled",
        "selectors that count or compare siblings are outside this check",
        "numbers in the generated documents are exact at the optimiser's output precision",
    ]
