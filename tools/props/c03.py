"""C03: writing what was read (spec/Xml.tla, GenXml.tla, XmlTrace.tla)."""
import json
import re
from xml.sax.saxutils import escape

import lib
import optrun
import svgmodel
import xmltok

NS = [("xmlns", "http://www.w3.org/2000/svg"), ("xmlns:xlink", "http://www.w3.org/1999/xlink"), ("xmlns:e", "urn:e")]
REFS = {'"': "&quot;", "\n": "&#10;", "\t": "&#9;", "\r": "&#13;"}


def attrs(at):
    return "".join(' %s="%s"' % (a["a"], escape(a["v"], REFS)) for a in at)


def write(n):
    v = {a["a"]: a["v"] for a in n["at"]}
    if n["n"] == "#text":
        return escape(v["t"])
    if n["n"] == "#refs":
        return "".join("&#%d;" % ord(ch) for ch in v["t"])
    if n["n"] == "#cdata":
        return "<![CDATA[%s]]>" % v["t"]
    if n["n"] == "#comment":
        return "<!--%s-->" % v["t"]
    if n["n"] == "#pi":
        return "<?%s?>" % (v["n"] + " " + v["t"]).strip()
    kids = "".join(map(write, n["kids"]))
    return "<%s%s%s" % (n["n"], attrs(n["at"]), ">%s</%s>" % (kids, n["n"]) if kids else "/>")


def build(t):
    return write({"n": "svg", "at": [{"a": a, "v": v} for a, v in NS], "kids": t["kids"]})


# attributes whose values are read into numbers, colours or lists and written in a shorter form
TYPED = set("""d x y x1 x2 y1 y2 cx cy r rx ry width height transform points viewBox stroke-dasharray opacity stroke-width
values begin dur fill stroke class style font-family preserveAspectRatio""".split())
NUM = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")


def canonical(name, v):
    """A typed value as its tokens: numbers by value, separators dropped."""
    if name == "style":
        return json.dumps(svgmodel.model_decls(svgmodel.declarations(v)))
    if name == "font-family":
        return json.dumps([re.sub(r"\s+", " ", x).strip().strip("\"'") for x in v.split(",")])
    if name in ("fill", "stroke"):
        return json.dumps(svgmodel.value(name, v))
    out, i = [], 0
    while i < len(v):
        m = NUM.match(v, i)
        if m and not (out and i and v[i - 1].isalpha() and name not in ("d", "points", "transform")):
            out.append("%g" % float(m.group(0)))
            i = m.end()
        else:
            if v[i] not in " ,":
                out.append(v[i].upper() if name == "d" and v[i] in "zZ" else v[i])
            i += 1
    if name in ("begin", "dur"):
        out = [t for t in out if t != "s"]
    return " ".join(out).replace("p x", "")


def split(n):
    return n.split(":", 1) if ":" in n else ["", n]


def read(text):
    nodes = xmltok.read(text)
    for n in nodes:
        n["px"], n["l"] = split(n["n"])
        n["at"] = [dict(zip(("px", "l"), split(a)), n=a, v=canonical(a, v) if a in TYPED else v) for a, v in n["at"]]
        n["words"] = re.findall(r"[^ \t\r\n]+", n["t"]) if n["k"] == "t" else []
        n["lead"] = n["t"][:1] in tuple(" \t\r\n")
        n["trail"] = n["t"][-1:] in tuple(" \t\r\n")
        n["ts"] = re.sub(r"[\t\n]", " ", n["t"])
    for n in nodes:
        if n["n"] == "style" and all(a["n"] != "type" or a["v"] in ("", "text/css") for a in n["at"]) and n["kids"]:
            css = "".join(nodes[k - 1]["t"] for k in n["kids"] if nodes[k - 1]["k"] == "t")
            kid = nodes[n["kids"][0] - 1]
            try:
                rules, other = svgmodel.stylesheet(re.sub(r'url\("([^"]*)"\)', r"url(\1)", css))
                if "broken" in css or not rules:
                    raise ValueError
                rules = [dict(q, decls=svgmodel.model_decls(q["decls"])) for q in rules]
                kid["k"], kid["t"] = "s", json.dumps([rules, other])
                n["kids"] = n["kids"][:1]
            except (ValueError, svgmodel.Unreadable):
                pass
    return {"nodes": nodes}


OPTS = [
    {}, {"space": "never"}, {"space": "default"}, {"space": "preserve"}, {"indent": 2}, {"indent": "tabs", "minify": False},
    {"space": "never", "minify": False}, {"indent": 4, "space": "preserve"}, {"indent": 1, "space": "never"}, {"single": True},
    {"close": False, "single": True, "space": "never"}, {"attributes": 2, "indent": 2, "close": False}, {"attributes": "tabs", "space": "preserve"}, {"minify": False, "single": True, "attributes": 1},
]


# Documents of the known findings. Everywhere else spaces of text that is re-indented are not judged, and style sheets hold no "<".
NOTED = ['<svg xmlns="http://www.w3.org/2000/svg"><text>a <tspan>b</tspan></text></svg>',
         '<svg xmlns="http://www.w3.org/2000/svg"><style>.a{fill:red}@media (max-width:9px){.a{fill:blue}}</style></svg>']


def model(o, strict=False):
    return {"space": o.get("space", "auto"), "indent": "indent" in o, "strict": strict}


def grows(o):
    """Indentation is added next to white space that is kept: each writing adds more."""
    return "indent" in o and o.get("space") in ("never", "preserve")


def key(name, svg):
    return ("noted-%s" % lib.digest(svg)) if svg in NOTED else "%s-%s" % (name.replace(" ", ""), lib.digest(svg))


def project(r):
    if "crash" in r:
        return None, [], [("driver", r["crash"], "")]
    after, names, bad = [], [], []
    for o, x in zip(OPTS, r["outs"]):
        name = json.dumps(o)
        if "svg" not in x:
            bad.append((name, "no output: %s" % x, ""))
            continue
        try:
            after.append({"doc": read(x["svg"]), "opt": model(o, r["svg"] in NOTED), "again": x["again"].get("svg") == x["svg"] or grows(o)})
            names.append((name, x["svg"], x["again"]))
        except xmltok.Bad as ex:
            bad.append((name, "not well-formed: %s" % ex, x["svg"]))
    return {"before": read(r["svg"]), "after": after}, names, bad


def judge(c, drv, texts):
    cases = [{"svg": s, "runs": [{"cfg": "none", "opts": o, "again": True} for o in OPTS]} for s in texts]
    results = c.drive(drv, cases, name="xml")
    recs = []
    for r, (rec, names, bad) in zip(results, lib.pmap(project, results)):
        for name, why, out in bad:
            c.violation(key(name, r["svg"]), "%s: %s: %s -> %s" % (name, why, r["svg"], out), {"svg": r["svg"], "job": name, "out": out, "why": why})
        if rec:
            recs.append((rec, names, r["svg"]))
    c.extra["outputs_judged"] = sum(len(x[1]) for x in recs)
    for i, t in c.validate("XmlTrace", [x[0] for x in recs], chunk=(len(recs) + 7) // 8):
        _, names, svg = recs[i]
        name, out, again = names[t["after"] - 1]
        c.violation(key(name, svg), "%s: %s: %s / %s: %s -> %s%s" % (name, t["why"], t["want"], t["got"], svg, out, " -> %s" % again if "again" in t["why"] else ""),
                    {"svg": svg, "job": name, "out": out, "why": t["why"]})


def canaries(c):
    a = '<svg xmlns="http://www.w3.org/2000/svg" xmlns:e="urn:e">%s</svg>'
    text = "<text>%s</text>"
    cases = [(text % "a <tspan>b</tspan>", text % "a<tspan>b</tspan>", {}, 1), (text % " a  b", text % "a b", {}, 0), (text % " a  b", text % "a b", {"space": "never"}, 1),
             (text % "a\nb", text % "a b", {"space": "preserve"}, 0), ("<e:g/>", "<g/>", {}, 1), ("<e:g/>", '<k:g xmlns:k="urn:e"/>', {}, 0), ("<g a='1'/>", "<g a='2'/>", {}, 1),
             ("<g/><!--c-->", "<!--c--><g/>", {}, 1), ("<g/>", "<k:g/>", {}, 1), ("<title> a b </title>", "<title>a b</title>", {}, 0), ("<title>a b</title>", "<title>ab</title>", {}, 1)]
    recs = [{"before": read(a % x), "after": [{"doc": read(a % y), "opt": model(o), "again": True}]} for x, y, o, _ in cases]
    refused = {i for i, _ in c.validate("XmlTrace", recs)}
    c.validated -= len(recs)
    if refused != {i for i, x in enumerate(cases) if x[3]}:
        raise lib.ToolError("the specification misjudges fixed pairs: %s" % sorted(refused))


def run(c):
    (drv,) = lib.build_driver("h_opt")
    canaries(c)
    small = lib.dedupe(c.tlc("GenXml").tagged)
    pairs = lib.dedupe(c.tlc("GenXml", consts={"MaxItems": 2}).tagged)
    sim = lib.dedupe(c.simulate("GenXml", 1500 if c.thorough else 120, cfg="GenXmlSim", depth=7).tagged)
    c.extra["documents_enumerated"] = len(pairs)
    docs = small + optrun.sample(pairs, 12000 if c.thorough else 1500, c.seed) + sim
    texts = sorted({build(d) for d in docs})
    c.sample(texts[len(texts) // 2])
    judge(c, drv, texts + NOTED)
    c.assumptions += ["doctypes and the XML declaration are outside: the reader the implementation uses does not report them",
                      "typed attribute values are compared as numbers, colours and words; other attributes byte for byte"]
