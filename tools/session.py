"""Editing sessions (spec/Actions.tla): writing documents and actions, reading what came out."""
import re

import lib
import svgmodel
import xmltok

ARGS = {"select": "Select", "more": "SelectMore", "deselect": "Deselect", "forget": "Forget", "class": "Class", "insert": "Insert", "attr": "Attr", "style": "Style",
        "translate": "Translate", "scale": "Scale", "rotate": "Rotate", "skewX": "SkewX", "skewY": "SkewY", "matrix": "Matrix"}
NAMES = {v: k for k, v in ARGS.items()}
PATHS = {"union": "PathUnion", "intersect": "PathIntersect", "subtract": "PathSubtract", "xor": "PathXor"}
ARITY = {"translate": 2, "scale": 2, "rotate": 3, "skewX": 1, "skewY": 1, "matrix": 6}


def action(a):
    """An action in the form the library reads."""
    k = a[0]
    if k in ("save", "keep", "snapshot"):
        return k
    if k == "path":
        return PATHS[a[1]]
    if k in ("deselect", "forget"):
        return ARGS[k]
    if k in ("select", "more", "class", "insert"):
        return {ARGS[k]: a[1]}
    if k == "attr":
        return {"Attr": {"name": a[1], "value": a[2]}}
    if k == "style":
        return {"Style": {"property": a[1], "value": a[2] + (" !important" if a[3:] else "")}}
    n = [float(x) for x in a[1:]]
    if k in ("skewX", "skewY"):
        return {ARGS[k]: n[0]}
    if k == "rotate":
        return {"Rotate": [n[0], n[1:] or None]}
    return {ARGS[k]: (n + [None])[:2] if k in ("translate", "scale") else n}


def number(x):
    return "%g" % x


def recorded(h):
    """A recorded action in the form the specification uses."""
    if isinstance(h, str):
        for k, v in PATHS.items():
            if v == h:
                return ["path", k]
        return [NAMES.get(h, h)]
    (k, v), = h.items()
    k = NAMES.get(k, k)
    if k == "attr":
        return [k, v["name"], v["value"]]
    if k == "style":
        m = re.match(r"(.*?)\s*!important$", v["value"])
        return [k, v["property"], m.group(1), "!"] if m else [k, v["property"], v["value"]]
    if isinstance(v, str):
        return [k, v]
    if not isinstance(v, list):
        return [k, number(v)]
    flat = []
    for x in v:
        flat += x if isinstance(x, list) else [] if x is None else [x]
    return [k] + [number(x) for x in flat]


def transform(s):
    out = []
    for m in re.finditer(r"([a-zA-Z]+)\s*\(([^)]*)\)", s):
        n = [number(float(x)) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?", m.group(2))]
        k = m.group(1)
        if len(n) < ARITY.get(k, 0):
            n += [n[0]] if k == "scale" else ["0"] * (ARITY[k] - len(n))
        out.append([k] + n)
    return out


def write(doc):
    kids = {}
    for i, n in enumerate(doc, 1):
        kids.setdefault(n["p"], []).append(i)

    def one(i):
        n = doc[i - 1]
        if n["n"] == "#text":
            return n["t"]
        at = dict(n["at"]) if isinstance(n["at"], dict) else {}
        if n["cls"]:
            at["class"] = " ".join(sorted(n["cls"]))
        if n["sty"]:
            at["style"] = ";".join(p + ":" + v + ("!important" if i else "") for p, v, i in n["sty"])
        if n["tr"]:
            at["transform"] = " ".join("%s(%s)" % (t[0], " ".join(t[1:])) for t in n["tr"])
        if n["p"] == 0:
            at["xmlns"] = "http://www.w3.org/2000/svg"
        return "<%s%s>%s</%s>" % (n["n"], "".join(' %s="%s"' % x for x in sorted(at.items())), "".join(one(k) for k in kids.get(i, [])), n["n"])
    return one(1)


def drawing(text):
    """The drawing of a written document without the state, and whether there is any trace of state."""
    nodes = xmltok.read(text)
    out, number_of = [], {1: 0}

    def one(i):
        n = nodes[i - 1]
        if n["k"] == "t":
            out.append({"n": "#text", "p": number_of[n["par"]], "t": n["t"], "at": {}, "cls": [], "sty": [], "tr": []})
            return
        if n["k"] != "e":
            raise xmltok.Bad("odd node " + n["k"])
        if n["n"] == "oxvg:state" and number_of[n["par"]] == 1:
            return
        at = {a: v for a, v in n["at"] if a not in ("xmlns", "xmlns:oxvg")}
        e = {"n": n["n"], "p": number_of[n["par"]], "t": "", "at": at}
        e["cls"] = at.pop("class", "").split()
        e["sty"] = [[p, svg_value(p, v), "!" if imp else ""] for p, v, imp in svgmodel.declarations(at.pop("style", ""))]
        e["tr"] = transform(at.get("transform", "")) if "(" in at.get("transform", "") else []
        if e["tr"]:
            at.pop("transform")
        out.append(e)
        number_of[i] = len(out)
        for k in n["kids"]:
            one(k)
    for k in nodes[0]["kids"]:
        one(k)
    return out, "oxvg" in text


def svg_value(p, v):
    return {"#d2b48c": "tan", "#f00": "red", "2px": "2"}.get(v, v)


def observe(case, r):
    """One observation per step: what the driver reported, read."""
    obs, out = [], r["out"]
    for step, o in zip(case["steps"], out):
        if "saved" in o:
            doc, trace = drawing(o["saved"])
            obs.append({"error": False, "doc": doc, "trace": trace, "quiet": True})
            continue
        if "raw" not in o:
            raise xmltok.Bad("no document: %s" % o)
        doc, trace = drawing(o["raw"])
        x = {"error": o["error"] is not None, "doc": doc, "trace": trace, "quiet": o["same"] and "refused" not in o["state"]}
        if "sel" in o["state"]:
            x["sel"] = o["state"]["sel"]
            x["hist"] = [recorded(h) for h in o["state"]["hist"]]
        obs.append(x)
    if len(obs) < len(case["steps"]):
        raise xmltok.Bad("stopped after step %d" % len(obs))
    return obs


def describe(case, k):
    return "%s :: %s" % (write(case["doc"]), " ".join("-" + ",".join(a) for a in case["steps"][:k]))


def project(item):
    case, r = item
    if "out" not in r:
        return None, "no answer: %s" % r
    try:
        return {"doc": case["doc"], "steps": case["steps"], "obs": observe(case, r)}, ""
    except xmltok.Bad as ex:
        return None, str(ex)


def judge(c, drv, cases, facets):
    inputs = [{"svg": write(x["doc"]), "steps": [action(a) for a in x["steps"]]} for x in cases]
    results = c.drive(drv, inputs, "act")
    recs = []
    for case, (rec, why) in zip(cases, lib.pmap(project, list(zip(cases, results)))):
        if rec is None:
            c.violation("session-" + lib.digest(describe(case, 99)), "%s: %s" % (why, describe(case, 99)), {"case": case, "why": why})
        else:
            recs.append((case, rec))
    c.extra["steps_judged"] = sum(len(r["steps"]) for _, r in recs)
    for i, t in c.validate("ActTrace", [r for _, r in recs], chunk=(len(recs) + 7) // 8):
        case, rec = recs[i]
        if t["what"] in facets:
            c.violation("session-" + lib.digest(describe(case, t["step"])), "%s: %s: %s" % (t["what"], t["why"], describe(case, t["step"])),
                        {"case": case, "step": t["step"], "observed": rec["obs"][t["step"] - 1], "why": t["why"]})


def canaries(c, drv):
    """Observations with one field changed must be refused."""
    case = {"doc": [{"n": "svg", "p": 0, "t": "", "at": {}, "cls": [], "sty": [], "tr": []}, {"n": "g", "p": 1, "t": "", "at": {}, "cls": ["a"], "sty": [], "tr": []}],
            "steps": [["select", "g"], ["class", "a"]]}
    good = {"doc": case["doc"], "steps": case["steps"], "obs": [
        {"error": False, "doc": case["doc"], "trace": True, "quiet": True, "sel": [2], "hist": [["select", "g"]]},
        {"error": False, "doc": [case["doc"][0], dict(case["doc"][1], cls=[])], "trace": True, "quiet": True, "sel": [2], "hist": [["select", "g"], ["class", "a"]]}]}
    import json
    bad = []
    for k, v in (("doc", case["doc"]), ("trace", False), ("quiet", False), ("sel", [1]), ("sel", [2, 2]), ("sel", []), ("hist", [["select", "g"]]), ("hist", [["class", "a"], ["select", "g"]]), ("error", True)):
        x = json.loads(json.dumps(good))
        x["obs"][1][k] = v
        bad.append(x)
    refused = {i for i, _ in c.validate("ActTrace", [good] + bad)}
    c.validated -= len(bad) + 1
    if refused != set(range(1, len(bad) + 1)):
        raise lib.ToolError("the specification misjudges fixed sessions: %s" % sorted(refused))


def cases(c):
    wide = lib.dedupe(c.tlc("GenAct").tagged)
    deep = lib.dedupe(c.tlc("GenAct", consts={"MaxSteps": 4 if c.thorough else 3, "Wide": "FALSE"}).tagged)
    long = lib.dedupe(c.simulate("GenAct", 6000 if c.thorough else 500, cfg="GenActSim", depth=16).tagged)
    c.extra["sequences_enumerated"] = len(wide) + len(deep)
    return wide, deep, long
