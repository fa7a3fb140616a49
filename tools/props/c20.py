"""C20: components made from documents (spec/Jsx.tla, GenJsx.tla, JsxTrace.tla)."""
import json
import os
import shutil
import subprocess
import tempfile
from xml.sax.saxutils import escape

import jsxread
import lib
import optrun


def quote(s):
    return escape(s, {'"': "&quot;", "\n": "&#10;", "\t": "&#9;"})


def write(doc):
    """The document's text."""
    def at(n):
        x = doc[n - 1]
        if x["t"] == "text":
            return escape(x["s"]).replace("\n", "\n")
        if x["t"] == "note":
            return "<!--%s-->" % x["s"]
        if x["t"] == "pi":
            return "<?p %s?>" % x["s"]
        attrs = "".join(' %s="%s"' % (a["k"], ";".join("%s:%s" % tuple(d) for d in a["decls"]) if a["k"] == "style" else quote(a["v"])) for a in x["attrs"])
        kids = "".join(at(m) for m in range(n + 1, len(doc) + 1) if doc[m - 1]["parent"] == n)
        return "<%s%s>%s</%s>" % (x["k"], attrs, kids, x["k"]) if kids else "<%s%s/>" % (x["k"], attrs)
    return at(1)


def flags(o):
    out = ["--no-oxvg", "--expand-props", o["expand"], "--jsx-runtime", o["runtime"]]
    for k, f in (("native", "--native"), ("ref", "--ref"), ("memo", "--memo"), ("title", "--title-prop"), ("desc", "--desc-prop")):
        if o[k]:
            out += [f, "true"]
    if not o["dims"]:
        out.append("--no-dimensions")
    if o["icon"]:
        out += ["--icon", o["icon"]]
    for k, v, _ in sorted(o["props"]):
        out += ["--svg-props", "%s=%s" % (k, v)]
    for k, v, _ in sorted(o["replace"]):
        out += ["--replace-attr-values", "%s=%s" % (k, v)]
    if o["named"]:
        out += ["--export-type", "named"]
    if o["named"] and o["alias"]:
        out += ["--named-export", o["alias"]]
    return out


NOTHING = {"tree": jsxread.node("svg"), "given": [], "rest": False, "spread": "none", "ref": False, "wrapped": [], "named": False, "alias": "", "imported": []}


def one(work):
    exe, home, case = work
    text = write(case["doc"])
    r = subprocess.run([exe, "jsx"] + flags(case["opts"]), input=text.encode(), capture_output=True, timeout=120, cwd=home, env={"HOME": home, "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"})
    src = r.stdout.decode("utf8", "replace")
    rec = dict(case, read="", got=NOTHING)
    if r.returncode:
        rec["read"] = "failed: " + r.stderr.decode("utf8", "replace")[-300:]
    else:
        try:
            rec["got"] = jsxread.component(src)
            if rec["got"]["spread"] == "either" and case["opts"]["expand"] != "none":
                rec["got"]["spread"] = case["opts"]["expand"]
        except (jsxread.Bad, ValueError, IndexError) as e:
            rec["read"] = "%s in %s" % (e, src[-400:])
    return rec, text, src


def el(k, parent, attrs=()):
    return {"t": "el", "k": k, "p": "", "parent": parent, "attrs": [{"k": a, "p": "", "v": v, "decls": []} for a, v in attrs], "s": ""}


PLAIN = {"native": False, "dims": True, "icon": "", "expand": "end", "ref": False, "memo": False, "title": False, "desc": False, "props": [], "replace": [], "named": False, "alias": "", "runtime": "classic"}


def canaries(c):
    doc = [el("svg", 0, [("width", "5")]), el("g", 1, [("stroke-width", "2"), ("aria-label", "a\"b")]), {"t": "text", "k": "", "p": "", "parent": 1, "attrs": [], "s": "x {y}"}]
    good = 'import * as React from "react";\nconst C = (props)=><svg width={5.0} {...props}><g strokeWidth="2" aria-label=\'a"b\'/>{"x {y}"}</svg>;\nexport default C;\n'
    wrong = [("strokeWidth", "stroke-width"), ('"2"', '"3"'), ('{"x {y}"}', '{"x y"}'), ('{"x {y}"}', "x {y}"), ("<g ", "<g><g/></g><g "), (" {...props}", ""), ("import * as React from", "import * as Q from"), ("default C", "{ C }"), ("<g ", "<g strokeWidth={2} ")]
    recs = [dict(doc=doc, opts=PLAIN, read="", got=jsxread.component(good))]
    for a, b in wrong:
        recs.append(dict(recs[0], got=jsxread.component(good.replace(a, b, 1))))
    refused = {i for i, _ in c.validate("JsxTrace", recs)}
    c.validated -= len(recs)
    if refused != set(range(1, len(recs))):
        raise lib.ToolError("the specification misjudges fixed components: %s" % sorted(refused))


def run(c):
    exe = lib.build_cli()
    canaries(c)
    cases = []
    for part, keep in (("attrs", None), ("texts", None), ("trees", 500), ("options", None)):
        got = lib.dedupe(c.tlc("GenJsx", consts={"Part": '"%s"' % part}).tagged)
        c.extra[part + "_enumerated"] = len(got)
        cases += got if c.thorough or not keep else optrun.sample(got, keep, c.seed)
    rows = lib.dedupe(c.simulate("GenJsx", 6000 if c.thorough else 900, consts={"Part": '"rows"'}, depth=18).tagged)
    c.extra["documents_simulated"] = len(rows)
    cases += rows
    for x in cases:
        for n in x["doc"]:
            n["attrs"] = list(n["attrs"])
    home = tempfile.mkdtemp(prefix="verif-c20-")
    try:
        done = lib.pmap(one, [(exe, home, x) for x in cases])
    finally:
        shutil.rmtree(home)
    recs = [r for r, _, _ in done]
    c.sample(json.dumps({"document": done[len(done) // 2][1], "component": done[len(done) // 2][2]}))
    for i, t in c.validate("JsxTrace", recs, chunk=(len(recs) + 7) // 8):
        rec, text, src = done[i]
        c.violation("jsx-%s" % lib.digest(text + json.dumps(flags(rec["opts"])) + t["why"]), "%s: %s: %s: %s" % (t["why"], t["what"], " ".join(flags(rec["opts"])[1:]), text), {"why": t["why"], "what": t["what"], "options": flags(rec["opts"]), "document": text, "component": src})
    c.assumptions += ["attributes handling events and properties typed for TypeScript are outside the domain", "numbers are compared by value", "text holding nothing but line breaks and indentation is layout"]
