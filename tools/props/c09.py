"""C09: path data (spec/Geom.tla, GenPath.tla, RenderTrace.tla)."""
import lib
import optrun
import re
import svgmodel
from props import c11

MARK = '<marker id="mr" markerWidth="4" markerHeight="4"><path d="M0 0h1v1z"/></marker>'
SWITCHES = ["joinNodes", "removeEmptySegments", "removeZeroSegments", "straightCurves", "arcCurves", "smartArcRounding", "closeSegments", "removeCloseLine"]
ON = {"closeSegments", "removeCloseLine"}  # off unless asked for


def runs(thorough):
    out = [("none", "none"), ("default", {"convertPathData": {}}), ("off", {"convertPathData": {s: False for s in SWITCHES}}),
           ("on", {"convertPathData": {s: True for s in SWITCHES}})]
    for s in SWITCHES:
        out.append((s, {"convertPathData": {s: s in ON}}))
        if thorough:
            out.append(("only-" + s, {"convertPathData": {t: t == s for t in SWITCHES}}))
    return out


def text(d):
    return '<svg xmlns="http://www.w3.org/2000/svg">%s<path d="M10 10%s" %s/></svg>' % (
        MARK if "#mr" in d["paint"] else "", "".join(d["d"]), d["paint"].replace("'", '"'))


def back(ps):
    """Some point is where a line turns straight back."""
    ps = [p for i, p in enumerate(ps) if i == 0 or p != ps[i - 1]]
    for a, b, c in zip(ps, ps[1:], ps[2:]):
        u, v = (b[0] - a[0], b[1] - a[1]), (c[0] - b[0], c[1] - b[1])
        if u[0] * v[1] == u[1] * v[0] and u[0] * v[0] + u[1] * v[1] < 0:
            return True
    return False


def plain(t):
    """No line that turns straight back, no segment without length, no subpath of a point only, and none
    that ends where it starts without being closed (it gets
    closed); with markers, no closing line without length either; no
    smooth curve that is a line between points that need rounding."""
    d = svgmodel.path_model(re.search(' d="([^"]*)"', t[t.rindex("<path"):]).group(1))
    at = start = None
    drawn = False
    line = []
    for c in d + [{"c": "M", "v": [0, 0]}]:
        if c["c"] in "MZ" and drawn and at == start and c["c"] == "M":
            return False
        if c["c"] == "Z":
            if not drawn or at == start and "#mr" in t:
                return False
            at, drawn = start, False
            if back(line + [start] + line[1:2]):
                return False
            line = [start]
            continue
        to = tuple(c["v"][-2:])
        if c["c"] == "Q" and tuple(c["v"][:2]) == at and any(x % 100 for x in at):
            return False
        if c["c"] == "M":
            if back(line):
                return False
            start, drawn, line = to, False, []
        elif to == at:
            return False
        else:
            drawn = True
        line += [to] if c["c"] == "A" else list(zip(c["v"][::2], c["v"][1::2]))
        at = to
    return True


def run(c):
    (drv,) = lib.build_driver("h_opt")
    pairs = lib.dedupe(c.tlc("GenPath", consts={"MaxCmds": 2}).tagged)
    three = lib.dedupe(c.tlc("GenPath", consts={"MaxCmds": 3}, heap="8g").tagged) if c.thorough else []
    sim = lib.dedupe(c.simulate("GenPath", 2500 if c.thorough else 500, cfg="GenPathSim", depth=9).tagged)
    c.extra["paths_enumerated"] = len(pairs) + len(three)
    docs = optrun.sample(pairs, 20000 if c.thorough else 9000, c.seed) + optrun.sample(three, 20000, c.seed) + sim
    texts = sorted({text(d) for d in docs})
    c.sample(texts[len(texts) // 2])
    c11.canaries(c)
    c11.judge(c, drv, texts, [("none", "none")])
    c11.judge(c, drv, [t for t in texts if plain(t)], runs(c.thorough)[1:])
    c.assumptions += ["coordinates are whole numbers, so that rounding plays no part", "uniting overlapping segments is outside: it computes new outlines"]
