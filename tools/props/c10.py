"""C10: geometry-rewriting jobs keep every shape in place (spec/GenGeo.tla, Render.tla, RenderTrace.tla)."""
import lib
import optrun
import svgtext
from props import c11

JOBS = [
    ("convert_transform", [{}, {"collapseIntoOne": False}, {"matrixToTransform": False, "convertToShorts": False, "shortRotate": False}, {"removeUseless": False}]),
    ("apply_transforms", [{}, {"applyTransformsStroked": False}]),
    ("convert_shape_to_path", [{}, {"convertArcs": True}]),
    ("convert_ellipse_to_circle", [None]),
    ("cleanup_numeric_values", [{}, {"convertToPx": False}, {"defaultPx": False}]),
    ("cleanup_list_of_values", [{}, {"convertToPx": False}]),
    ("move_group_attrs_to_elems", [None]),
]
GROWS = {"scale(2)", "scale(2 3)", "matrix(2 0 0 2 5 10)"}
SERVERS = {
    "fill='url(#gt)'": "<linearGradient id='gt'%s><stop offset='0' stop-color='red'/><stop offset='1' stop-color='#00f'/></linearGradient>",
    "fill='url(#pt)'": "<pattern id='pt' width='4' height='4'%s><path d='M0 0h1v1z'/></pattern>",
}
RULE = "<style>.a{stroke:red;stroke-width:2}</style>"


SKEWS = {"skewX(45)", "skewY(-45)", "matrix(1 0 1 1 0 0)"}
WITH_SKEW = SKEWS | {"translate(10 20)", "translate(-5)", "scale(2)", "scale(.5)", "matrix(1 0 0 1 10 0)", "matrix(2 0 0 2 5 10)",
                     "translate(0)", "scale(1)", "rotate(0)", "matrix(1 0 0 1 0 0)", "skewX(0)"}


def exact(d):
    """What the jobs write for this document needs no rounding: one skew, and no turns or uneven scales beside it; no arcs in it.
    Markers on basic shapes are drawn by some viewers only."""
    fs = d["outer"] + d["inner"] + d["own"]
    if fs.count("scale(.5)") > 1:
        return False
    n = sum(f in SKEWS for f in fs)
    if "marker" in d["paint"] and d["shape"].split()[0] in ("rect", "circle", "ellipse"):
        return False
    if n and ("stroke" in d["paint"] + d["group"] or "class" in d["paint"]):
        return False  # the pen of a skewed stroke is compared by its map, not by what it draws
    return n == 0 or (n == 1 and set(fs) <= WITH_SKEW and not (d["shape"].startswith("path") and "a" in d["shape"][4:].lower()))


def text(d):
    def g(tf, more, body):
        at = "".join(" " + x for x in ((["transform='%s'" % " ".join(tf)] if tf else []) + ([more] if more else [])))
        return "<g%s>%s</g>" % (at, body) if at else body
    paint, rule = d["paint"], ""
    if paint.startswith("rule:"):
        paint, rule = "", "<style>%s{fill:lime;stroke:blue}</style>" % paint[5:]
    own = " transform='%s'" % " ".join(d["own"]) if d["own"] else ""
    server = ""
    if paint in SERVERS:  # the list belongs to the paint server instead
        server = SERVERS[paint] % own.replace("transform", "gradientTransform" if "gt" in paint else "patternTransform")
        own = ""
    shape = "<%s%s%s/>" % (d["shape"], own, " " + paint if paint else "")
    body = g(d["outer"], d["group"], g(d["inner"], "", shape))
    if paint == "id='u'":
        body += "<use href='#u' x='10' stroke='blue'/>"
    defs = "".join(v for k, v in sorted(svgtext.DEFS.items()) if "#%s)" % k in body and "id='%s'" % k not in server) + server
    return ("<svg xmlns='http://www.w3.org/2000/svg' width='200' height='100' viewBox='0 0 200 100'>%s%s%s%s</svg>" % (
        rule, RULE if "class=" in body else "", "<defs>%s</defs>" % defs if defs else "", body)).replace("'", '"')


def run(c):
    (drv,) = lib.build_driver("h_opt")
    c11.canaries(c)
    own = lib.dedupe(c.tlc("GenGeo", consts={"Family": '"own"'}).tagged)
    nest = lib.dedupe(c.tlc("GenGeo", consts={"Family": '"nest"'}).tagged)
    group = lib.dedupe(c.tlc("GenGeo", consts={"Family": '"group"'}).tagged)
    sim = lib.dedupe(c.simulate("GenGeo", 200 if c.thorough else 40, cfg="GenGeoSim", depth=100).tagged)
    c.extra["documents_enumerated"] = len(own) + len(nest) + len(group)
    k = 5 if c.thorough else 1
    docs = own + optrun.sample(nest, 8000 * k, c.seed) + optrun.sample(group, 5000 * k, c.seed + 1) + sim
    docs = [d for d in docs if exact(d) and sum(f in GROWS for f in d["outer"] + d["inner"] + d["own"]) <= 2]  # keeps numbers within the model checker's range
    texts = sorted({text(d) for d in docs})
    c.sample(texts[len(texts) // 3])
    c.sample(texts[2 * len(texts) // 3])
    runs = [("none", "none")] + [("%s %s" % (j, o), optrun.single(j, o)) for j, os in JOBS for o in os] + [("safe", "safe"), ("default", "default")]
    c11.judge(c, drv, texts, runs)
    c.assumptions += ["transform functions and coordinates are chosen so that all results are exact at the optimiser's precision"]
