"""C18: what the linter reports, and where (spec/Lint.tla, GenLint.tla, LintTrace.tla)."""
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

import lib
import optrun

RULES = ("noUnknownElements", "noUnknownAttributes", "noDeprecated", "noDefaultAttributes", "noXLink", "noUnusedIds", "noUnusedXmlns", "noInvalidAttributes")
CSS = {"sel": "#%s{fill:red}", "not": "rect:not(#%s){fill:red}", "desc": "g #%s>rect{fill:red}", "url": "rect{fill:url(#%s)}", "media": "@media print{.k,#%s{fill:red}}"}
LAYOUTS = (("", ""), ("\n", ""), ("\n  ", "<!--héé\n\n“x”-->"), ("\n", "\n  "))


def write(doc, layout):
    """The text, and the byte ranges of every element and attribute."""
    gap, lead = LAYOUTS[layout]
    out, size, spans = [], [0], {}

    def put(s):
        out.append(s)
        size[0] += len(s.encode())

    def node(n):
        d = doc[n - 1]
        here = {"start": size[0], "attrs": []}
        spans[n] = here
        put("<" + d["k"])
        for m, a in enumerate(d["attrs"]):
            put("\n    " if layout == 3 and m else " ")
            at = size[0]
            put(a["k"])
            name = size[0]
            put('="')
            value = size[0]
            put(a["v"])
            end = size[0]
            put('"')
            here["attrs"].append((at, name, value, end, size[0], value + a["v"].index("!") if "!" in a["v"] else -1))
        kids = [m + 1 for m, k in enumerate(doc) if k["parent"] == n]
        text = "".join(CSS[c["how"]] % c["id"] for c in d["css"])
        if not kids and not text:
            put("/>")
            return
        put(">")
        put(text)
        for k in kids:
            put(gap)
            node(k)
        put(gap)
        put("</%s>" % d["k"])

    put(lead)
    node(1)
    put(gap and "\n")
    return "".join(out), spans


def place(spans, start, end):
    for n, s in spans.items():
        if (start, end) == (s["start"], s["start"]):
            return n, 0, "elem"
        for i, (at, name, value, last, close, bang) in enumerate(s["attrs"]):
            if (start, end) == (at, close):
                return n, i + 1, "whole"
            if (start, end) == (at, name):
                return n, i + 1, "name"
            if (start, end) == (value, last):
                return n, i + 1, "value"
            if (start, end) == (bang, last):
                return n, i + 1, "tail"
    return 0, 0, "nowhere"


def at_start(spans, start):
    for n, s in spans.items():
        if start == s["start"] + 1:
            return n, 0, "elem"
        for i, (at, name, value, last, close, bang) in enumerate(s["attrs"]):
            if start == at:
                return n, i + 1, "name"
            if start == value:
                return n, i + 1, "value"
            if start == bang:
                return n, i + 1, "tail"
    return 0, 0, "nowhere"


HEAD = re.compile(r"^ ([⚠×]) (.*)$")
WHERE = re.compile(r"^\s+╭─\[(.*):(\d+):(\d+)\]$")


def printed(text, svg, spans, path=""):
    """The problems of a printed report."""
    out = []
    source = svg.encode().split(b"\n")
    starts = [0]
    for l in source:
        starts.append(starts[-1] + len(l) + 1)
    lines = re.sub(r"\x1b\[[\d;]*m", "", text).split("\n")
    for k, l in enumerate(lines):
        m = HEAD.match(l)
        if not m:
            continue
        rec = {"severity": "error" if m.group(1) == "×" else "warn", "node": 0, "attr": 0, "at": "nowhere", "words": [w.strip('"') for w in re.findall(r"[`<]([^`>]*)[`>]", m.group(2))], "shown": False}
        out.append(rec)
        w = WHERE.match(lines[k + 1]) if k + 1 < len(lines) else None
        if not w or w.group(1) != path:
            continue
        line, col = int(w.group(2)), int(w.group(3))
        if not 1 <= line <= len(source) or col > len(source[line - 1]):
            continue
        rec["node"], rec["attr"], rec["at"] = at_start(spans, starts[line - 1] + col)
        want = source[line - 1].decode()
        for j in range(k + 2, len(lines)):
            if lines[j].strip().startswith("╰"):
                break
            s = re.match(r"^\s*(\d+) │ (.*)$", lines[j])
            if s and int(s.group(1)) == line and s.group(2) == want and j + 1 < len(lines):
                under = re.match(r"^\s* · ( *)─", lines[j + 1])
                rec["shown"] = bool(under) and len(under.group(1)) == col
    return out


def project(item):
    case, svg, spans, r = item
    rec = dict(doc=case["doc"], rules=case["rules"], via="library", level="", code=0, problems=[], printed=[], errors=0, warnings=0)
    problems, report = r.get("problems"), r.get("report")
    if r.get("hang") or r.get("panic") or not isinstance(problems, list) or not isinstance(report, dict) or "panic" in report or report["result"] == "failed":
        return dict(rec, result="failed")
    for p in problems:
        node, attr, part = place(spans, *p["range"]) if p["range"] else (0, 0, "nowhere")
        rec["problems"].append({"kind": p["kind"], "node": node, "attr": attr, "names": p["names"], "part": part, "severity": p["severity"]})
    rec.update(errors=report["errors"], warnings=report["warnings"], result=report["result"], printed=printed(report["text"], svg, spans))
    return rec


def settings(rules):
    return {k: {"off": "Off", "warn": "Warn", "error": "Error"}[v] for k, v in rules.items()}


RECOMMENDED = {r: "warn" if r in ("noDefaultAttributes", "noXLink", "noUnusedIds", "noUnusedXmlns") else "error" for r in RULES}
CLEAN = '<svg xmlns="http://www.w3.org/2000/svg"><g/></svg>'


def command(work):
    """Runs of the command: rules from a file found, a file named or none; one document, or two of which one is clean."""
    exe, base, items = work
    out = []
    for n, case, svg, spans in items:
        at = os.path.join(base, str(n))
        os.makedirs(os.path.join(at, "home"))
        rng = random.Random(n)
        how = rng.choice(["local", "base", "named", "none"])
        level = rng.choice(["error", "warn", "off", ""])
        feed = rng.choice(["stdin", "file", "two"])
        rules = RECOMMENDED if how == "none" else case["rules"]
        conf = json.dumps({"lint": settings(rules)})
        other = json.dumps({"lint": settings({r: "warn" if rules[r] != "warn" else "error" for r in RULES})})

        def file(name, text):
            path = os.path.join(at, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(text)

        if how == "local":
            file("oxvgrc.json", conf)
            file("home/.config/oxvg/config.json", other)
        elif how == "base":
            file("home/.config/oxvg/config.json", conf)
        elif how == "named":
            file("named.json", conf)
            file("oxvgrc.json", other)
        file("in.svg", svg)
        file("ok.svg", CLEAN)
        argv = [exe, "lint", "check"] + {"stdin": [], "file": ["in.svg"], "two": rng.choice([["in.svg", "ok.svg"], ["ok.svg", "in.svg"]])}[feed]
        argv += (["--level", level] if level else []) + (["--config", "named.json"] if how == "named" else [])
        r = subprocess.run(argv, cwd=at, env={"HOME": os.path.join(at, "home"), "PATH": "/usr/bin:/bin"}, input=svg.encode() if feed == "stdin" else b"", capture_output=True, timeout=60)
        rec = dict(doc=case["doc"], rules=rules, via="command", level=level or "error", code=r.returncode, problems=[], errors=0, warnings=0, result="ok",
                   printed=printed(r.stdout.decode("utf8", "replace"), svg, spans, "" if feed == "stdin" else "in.svg"))
        if r.returncode not in (0, 1):
            rec["result"] = "failed"
        out.append((rec, "%s %s %s" % (" ".join(argv[1:]), how, r.stderr.decode("utf8", "replace")[-200:])))
        shutil.rmtree(at)
    return out


def canaries(c):
    a = {"k": "foo", "p": "", "v": "1", "ref": "", "of": ""}
    ns = {"k": "xmlns", "p": "", "v": "http://www.w3.org/2000/svg", "ref": "", "of": ""}
    node = {"k": "svg", "p": "", "parent": 0, "attrs": [ns, a], "css": []}
    p = {"kind": "unknown-attribute", "node": 1, "attr": 2, "names": ["foo", "svg"], "part": "whole", "severity": "error"}
    q = {"severity": "error", "node": 1, "attr": 2, "at": "name", "words": ["foo", "svg"], "shown": True}
    good = dict(doc=[node], rules={r: "error" for r in RULES}, via="library", level="", code=0, problems=[p], printed=[q], errors=1, warnings=0, result="reported")
    cli = dict(good, via="command", level="warn", code=1, problems=[])
    recs = [good, cli, dict(good, problems=[], printed=[], errors=0, result="ok"), dict(good, problems=[dict(p, severity="warn")], printed=[dict(q, severity="warn")], errors=0, warnings=1), dict(good, problems=[dict(p, part="value")]),
            dict(good, errors=0), dict(good, result="ok"), dict(good, printed=[]), dict(good, printed=[dict(q, at="value")]), dict(good, problems=[p, p], printed=[q, q], errors=2), dict(good, rules=dict(good["rules"], noUnknownAttributes="off")), dict(cli, code=0), dict(cli, printed=[dict(q, shown=False)])]
    refused = {i for i, _ in c.validate("LintTrace", recs)}
    c.validated -= len(recs)
    if refused != set(range(2, len(recs))):
        raise lib.ToolError("the specification misjudges fixed reports: %s" % sorted(refused))


def noted(c, drv):
    """Documents on which the linter is known to be wrong."""
    docs = ['<svg xmlns="http://www.w3.org/2000/svg" xmlns:s="http://www.w3.org/2000/svg"><s:g/></svg>', '<svg xmlns="http://www.w3.org/2000/svg"><g xmlns=""><bare/></g></svg>']
    out = c.drive(drv, [{"svg": d, "rules": {"noUnusedXmlns": "Error"}} for d in docs], "noted")
    for d, r, key in zip(docs, out, ("two-prefixes-one-uri", "default-namespace-taken-back")):
        if r.get("problems") != []:
            c.violation(key, "a declaration in use is reported as unused", {"svg": d, "got": r.get("problems")})


def run(c):
    (drv,) = lib.build_driver("h_lint")
    exe = lib.build_cli()
    canaries(c)
    rng = random.Random(c.seed)
    cases = []
    for part, keep in (("children", None), ("values", None), ("ids", None), ("prefixes", 2500), ("severities", 1000)):
        got = lib.dedupe(c.tlc("GenLint", consts={"Part": '"%s"' % part}).tagged)
        c.extra["enumerated_" + part] = len(got)
        cases += got if keep is None or c.thorough else optrun.sample(got, keep, c.seed)
    rows = lib.dedupe(c.simulate("GenLint", num=6000 if c.thorough else 700, cfg="GenLint", consts={"Part": '"rows"'}, depth=25).tagged)
    c.extra["rows"] = len(rows)
    cases += rows
    texts = []
    for t in cases:
        if t["rules"]["noXLink"] == "any":
            t["rules"] = {r: rng.choice(["off", "warn", "error", "error", "warn"]) for r in RULES}
        texts.append(write(t["doc"], rng.randrange(len(LAYOUTS))))
    out = c.drive(drv, [{"svg": x[0], "rules": settings(t["rules"])} for t, x in zip(cases, texts)], "lint")
    recs = lib.pmap(project, [(t, x[0], x[1], r) for t, x, r in zip(cases, texts, out)])
    told = [(rec, x[0]) for rec, x in zip(recs, texts)]
    pick = optrun.sample(list(range(len(cases))), 4000 if c.thorough else 400, c.seed)
    base = tempfile.mkdtemp(prefix="verif-c18-")
    try:
        items = [(c.seed * 100003 + k, cases[k], texts[k][0], texts[k][1]) for k in pick]
        for done in lib.pmap(command, [(exe, os.path.join(base, str(n)), items[n::16]) for n in range(16)]):
            told += done
    finally:
        shutil.rmtree(base)
    c.sample(json.dumps(told[len(told) // 2][0])[:2000])
    for i, t in c.validate("LintTrace", [r for r, _ in told], chunk=(len(told) + 7) // 8):
        rec, note = told[i]
        c.violation("lint-" + lib.digest([t["why"], rec["doc"], rec["rules"], rec["via"]]), "%s: %s" % (t["why"], t["what"]), {"note": note, "record": rec})
    noted(c, drv)
    c.assumptions += ["reports are compared as sets; columns count bytes", "a declaration repeated unchanged further down, and an unreadable x on text, may or may not be reported",
                      "one namespace is declared under one prefix at a time"]
