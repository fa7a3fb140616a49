"""C15: a configuration runs the jobs it selects, in order, with their options (spec/Config.tla, GenCfg.tla, CfgTrace.tla)."""
import json
import os
import shutil
import subprocess
import tempfile

import lib
import optrun

NS = 'xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"'
# Documents on which jobs have something to do, and on which their order shows.
DOCS = [
    '<?xml version="1.0"?><!DOCTYPE svg><!--k a--><!--!b--><svg %s width="20" height="20" viewBox="0 0 20 20" version="1.1"><title>t</title><desc>d</desc><metadata>m</metadata>'
    '<rect id="a" class="c" fill="#ff0000" width="10.12345" height="10"/><!--c--></svg>' % NS,
    '<svg %s><defs><linearGradient id="g"><stop stop-color="red"/></linearGradient><path id="u"/></defs><style>.c{fill:url(#g)}.d{stroke:red}@media print{.c{fill:red}}</style><style>.e{fill:blue}</style>'
    '<rect class="c" width="3" height="4"/><g class="d e"><circle cx="3" cy="3" r="2"/><ellipse rx="4" ry="4"/></g></svg>' % NS,
    '<svg %s><g transform="translate(1 2)"><g fill="red" transform="scale(2)"><path d="M0 0 L 10 0 L 10 10 L 0 10 z" fill="#ff0000"/><path d="M0 20h10v10" fill="#ff0000" stroke="none"/></g></g></svg>' % NS,
    '<svg %s viewBox="0 0 10 10"><path d="M-20 -20h5v5z"/><path d="M1 1h5v5z"/><path d="M1 1h5v5z"/><image xlink:href="a.png" width="3" height="3"/><use xlink:href="#q"/><path id="q" d="M 1.000 2 L 3 4"/></svg>' % NS,
    '<svg %s xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape" xmlns:e="urn:e" inkscape:label="x" e:y="1"><g inkscape:groupmode="layer" a=" b\n c " class="">'
    '<text></text><text><tspan/></text><text>  x  </text></g><g/><rect width="0" height="3"/><circle r="0"/><g display="none"><path d="M0 0h2"/></g></svg>' % NS,
    '<svg %s style="fill:red;stroke:blue!important" enable-background="new 0 0 20 20" width="20" height="20"><g style="opacity:1;stroke-width:1px" fill="#f00" stroke="none" x="1"><rect fill="#f00" width="5cm" height="5.00000px"/>'
    '<rect fill="#f00" y="6" width="5" height="5"/></g><polygon points="1.23456 2 3,4.50 5 6"/></svg>' % NS,
    '<svg %s><script>f()</script><rect onclick="f()" id="a" width="1" height="1"/><a xlink:href="#a" xlink:title="T" xlink:show="new"><circle id="b" r="2"/></a></svg>' % NS,
    '<svg %s><defs><rect id="r1" width="1" height="1"/><circle id="c1" r="1"/><rect id="r2" width="2" height="1"/><path d="M0 0h1"/></defs><use xlink:href="#c1"/><use href="#r1"/><g id="lonely" fill="currentColor"><path id="p" stroke="#000" fill="rgb(1,2,3)" d="M0 0 C 0 0 10 10 10 10"/></g></svg>' % NS,
    '<svg xmlns="http://www.w3.org/2000/svg" height="3" viewBox="0 0 3 3" a="1" fill="black" id="s" class="c" width="3"><rect stroke="red" stroke-width="0" fill="none" x="0" y="0" rx="0" width="1" height="1" transform="rotate(90 0 0)"/><path d="" id="z"/><foo bar="1"/><path data-x="1" aria-label="q" role="img" d="M1 1l0 0 1 1"/></svg>',
    '<svg %s><style>#a{fill:red} .c{fill:green} .c.d{stroke:blue}</style><rect id="a" class="c" width="2" height="2"/><rect class="c d" width="2" height="2" y="3"/><g id="k" transform="matrix(1 0 0 1 5 5)"><rect width="3" height="1" style="fill:#00f"/></g></svg>' % NS,
]


def native(name, given):
    """The JSON a job's options are configured by."""
    if given and given[0][0] == "":
        return json.loads(given[0][1])
    return {k: json.loads(v) for k, v in given}


def plugin(p):
    if p[0] == 0:
        return "preset-default"
    if p[0] == 99:
        return "notAPlugin"
    if p[1] == "plain":
        return p[3] if p[0] % 2 else {"name": p[3]}
    return {"name": p[3], "params": json.loads(p[4]) if p[1] == "path" else native(p[3], p[2])}


def snake(name):
    return "".join("_" + ch.lower() if ch.isupper() else ch for ch in name)


def canon(v):
    return json.dumps(v, sort_keys=True, separators=(", ", ": "), ensure_ascii=True)


def options(v):
    return [[k, canon(x)] for k, x in sorted(v.items())] if isinstance(v, dict) else [["", canon(v)]]


def case(t, docs):
    steps = [{name: native(name, given)} for name, given in t["steps"]]
    x = {"kind": t["kind"], "docs": docs, "steps": steps, "extends": t["extends"]}
    if t["kind"] == "svgo":
        x["plugins"] = [plugin(p) for p in t["plugins"]]
    else:
        x["jobs"] = {name: native(name, given) for _, name, given in t["jobs"]}
        x["omit"] = [snake(n) for n in t["omit"]]
    return x


def describe(x):
    return canon({k: x[k] for k in ("plugins", "extends", "jobs", "omit") if k in x and x[k] != ""})


def cli(exe, items):
    """Runs the command with a configuration file holding each configuration; a list of texts each."""
    root = tempfile.mkdtemp(prefix="verif-c15-")
    try:
        out = []
        for n, x in enumerate(items):
            here = os.path.join(root, str(n))
            os.makedirs(os.path.join(here, "dir"))
            conf = {"jobs": x["jobs"], "omit": x["omit"]}
            if x["extends"]:
                conf["extends"] = x["extends"]
            with open(os.path.join(here, "conf.json"), "w") as f:
                json.dump({"optimise": conf}, f)
            texts = []
            for d in x["docs"]:
                with open(os.path.join(here, "dir", "name.svg"), "w") as f:
                    f.write(d)
                r = subprocess.run([exe, "optimise", "--config", "conf.json", "-o", "out.svg", "--quiet", "--", "dir/name.svg"], cwd=here, capture_output=True, text=True, timeout=60,
                                   env={"HOME": here, "PATH": "/usr/bin:/bin"})
                dest = os.path.join(here, "out.svg")
                if os.path.exists(dest):
                    with open(dest) as f:
                        texts.append(f.read())
                    os.remove(dest)
                else:
                    texts.append("!refused " + r.stderr.strip())
            out.append(texts)
        return out
    finally:
        shutil.rmtree(root)


def run_cli(args):
    return cli(*args)


def canaries(c, good):
    """Observations altered in one respect each, all of which have to be refused."""
    def alter(f):
        r = json.loads(json.dumps(good))
        f(r)
        return r
    recs = [good, alter(lambda r: r["texts"].__setitem__(0, "x")), alter(lambda r: r["written"].pop()), alter(lambda r: r["written"].append(["removeTitle", [["", "true"]], [["", "true"]]])),
            alter(lambda r: r["written"][0][1].append(["zz", "1"])), alter(lambda r: r.update(same=False)), alter(lambda r: r["agains"].__setitem__(0, "x")), alter(lambda r: r.update(cli=["x"])), alter(lambda r: r.update(bad=True))]
    refused = {i for i, _ in c.validate("CfgTrace", recs)}
    c.validated -= len(recs)
    if refused != set(range(1, len(recs))):
        raise lib.ToolError("the specification misjudges fixed observations: %s" % sorted(refused))


def run(c):
    (drv,) = lib.build_driver("h_cfg")
    exe = lib.build_cli()
    gen = lib.dedupe(c.tlc("GenCfg").tagged)
    sim = optrun.sample(lib.dedupe(c.simulate("GenCfg", 400 if c.thorough else 40, cfg="GenCfgSim", depth=8).tagged), 4000 if c.thorough else 250, c.seed)
    c.extra["configurations_enumerated"] = len(gen)
    cases = []
    for i, t in enumerate(gen + sim):
        if len(t["steps"]) <= 2:
            docs = DOCS
        else:
            docs = [DOCS[(i + c.seed) % len(DOCS)]] if not c.thorough else DOCS
        cases.append(case(t, docs))
    results = c.drive(drv, cases, "cfg")
    # what each job has when nothing is said of its options
    base = {}
    for t, r in zip(gen, results):
        if t["kind"] == "native" and t["extends"] == "" and len(t["jobs"]) == 1 and not t["omit"] and not r.get("error") and "written" in r:
            name, given = t["jobs"][0][1], t["jobs"][0][2]
            if given in ([], [["", "true"]], [["", "[]"]], [["attributes", "{}"]], [["attrs", "[]"]]) and name in r["written"]:
                base[name] = options(r["written"][name])
    recs, quiet = [], set()
    for t, x, r in zip(gen + sim, cases, results):
        if "crash" in r or "step" in r:
            c.violation("run-%s" % lib.digest(describe(x)), "%s: %s" % (describe(x), r.get("crash") or r.get("step")), x)
            continue
        rec = dict(t, error=r["error"], written=[], same=True, texts=[], agains=[], expects=[], plain=[], cli=[])
        if not r["error"]:
            rec["written"] = [[k, options(v), base.get(k, options(v))] for k, v in sorted(r["written"].items())]
            rec["same"] = r["again"] == r["written"]
            for k in ("texts", "agains", "expects", "plain"):
                rec[k] = [lib.digest(s) if not s.startswith("!") else s for s in r.get(k, [])]
            if len(t["steps"]) == 1 and rec["texts"] != rec["plain"]:
                quiet.add(t["steps"][0][0])
        recs.append((rec, x, r))
    c.extra["jobs_seen_to_act"] = len(quiet)
    # the same through the command
    natives = [k for k, (rec, x, r) in enumerate(recs) if rec["kind"] == "native" and not rec["bad"] and not r["error"]]
    short = [k for k in natives if recs[k][0]["omit"] and len(recs[k][0]["steps"]) <= 1]
    picked = optrun.sample(natives, 3000 if c.thorough else 350, c.seed) + optrun.sample(short, 600 if c.thorough else 60, c.seed)
    items = [(k, dict(recs[k][1], docs=[recs[k][1]["docs"][(k + c.seed) % len(recs[k][1]["docs"])]])) for k in picked]
    parts = [items[n::8] for n in range(8)]
    got = lib.pmap(run_cli, [(exe, [x for _, x in p]) for p in parts])
    for p, outs in zip(parts, got):
        for (k, x), texts in zip(p, outs):
            at = recs[k][1]["docs"].index(x["docs"][0])
            rec = dict(recs[k][0])
            for f in ("texts", "agains", "expects", "plain"):
                rec[f] = [rec[f][at]]
            rec["cli"] = [lib.digest(s) if not s.startswith("!") else s for s in texts]
            recs.append((rec, x, {"cli": texts, "expects": [recs[k][2]["expects"][at]]}))
    c.extra["configurations_through_the_command"] = len(items)
    canaries(c, next(rec for rec, _, _ in recs if rec["kind"] == "native" and rec["extends"] == "default" and len(rec["jobs"]) == 1 and rec["jobs"][0][1] == "mergePaths" and not rec["omit"] and not rec["bad"]))
    c.sample(describe(recs[len(recs) // 3][1]))
    for i, t in c.validate("CfgTrace", [x[0] for x in recs], chunk=(len(recs) + 7) // 8):
        rec, x, r = recs[i]
        show = ""
        for a, b in (("texts", "expects"), ("texts", "agains"), ("cli", "expects"), ("texts", "plain")):
            for u, v in zip(r.get(a, []), r.get(b, [])):
                if not show and u != v:
                    show = ": %s instead of %s" % (u, v)
        c.violation("%s-%s" % (rec["kind"], lib.digest(describe(x) + t["why"])), "%s %s%s" % (describe(x), t["why"], show), {"case": x, "why": t["why"], "result": r})
