"""C17: where the options of a run come from (spec/Sources.tla, GenSources.tla, SourcesTrace.tla)."""
import json
import os
import shutil
import subprocess
import tempfile

import lib

DOC = '<svg xmlns="http://www.w3.org/2000/svg"><!--note--><title>t</title><metadata>m</metadata><rect fill="#ff0000" width="10" height="10"/></svg>'
MARKS = {"removeComments": "note", "removeTitle": "<title>", "removeMetadata": "<metadata>", "convertShapeToPath": "<rect"}
MODES = ("stdin", "file", "out", "inplace")
NAMED = -9


def put(path, place, text):
    if place == 0 or place == NAMED:
        return
    os.makedirs(path if place == -1 else os.path.dirname(path), exist_ok=True)
    if place != -1:
        with open(path, "wb") as f:
            f.write(b"\xff\xfe{}" if place == -2 else text.encode())


def tree(root):
    out = {}
    for here, _, files in os.walk(root):
        for f in files:
            p = os.path.join(here, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def once(exe, base, t, args, doc, mode, op):
    """One run: whether it failed, what it wrote, whether anything else changed."""
    home, at = os.path.join(base, "home"), os.path.join(base, "at")
    os.makedirs(at)
    os.makedirs(home)
    try:
        c = t["case"]
        xdg = mode in ("file", "out")
        put(os.path.join(at, "named.json"), c["named"], t["texts"][0])
        put(os.path.join(at, "oxvgrc.json"), c["local"], t["texts"][1])
        put(os.path.join(home, "conf" if xdg else ".config", "oxvg", "config.json"), c["base"], t["texts"][2])
        if "printed" in t:
            put(os.path.join(at, "printed.json"), 1, t["printed"])
        put(os.path.join(at, "in.svg"), 1, doc)
        before = tree(base)
        env = {"HOME": home, "PATH": "/usr/bin:/bin"}
        if xdg:
            env["XDG_CONFIG_HOME"] = os.path.join(home, "conf")
        argv = [exe, op] + args + {"stdin": [], "file": ["in.svg"], "out": ["in.svg", "-o", "out.svg", "--quiet"], "inplace": ["in.svg", "--quiet", "-o"]}[mode]
        if args == ["--config"]:
            argv = [exe, op] + ([] if mode == "stdin" else ["in.svg"]) + args
        r = subprocess.run(argv, cwd=at, env=env, input=doc.encode() if mode == "stdin" else b"", capture_output=True, timeout=60)
        after = tree(base)
        place = os.path.join("at", "out.svg" if mode == "out" else "in.svg")
        result = r.stdout if mode in ("stdin", "file") or args == ["--config"] else after.get(place, b"") if after.get(place) != before.get(place) else b""
        other = {k: v for k, v in after.items() if k != place} == {k: v for k, v in before.items() if k != place}
        wrote = bool(result) or (mode in ("out", "inplace") and bool(r.stdout.strip()))
        return r.returncode != 0, result.decode("utf8", "replace"), wrote, other, r.stderr.decode("utf8", "replace")
    finally:
        shutil.rmtree(at)
        shutil.rmtree(home)


def args_of(c):
    return (["--config", "named.json"] if c["named"] != NAMED else []) + (["--extends", c["preset"]] if c["preset"] else [])


def one(work):
    exe, base, items = work
    os.makedirs(base)
    out = []
    for n, t in items:
        c = t["case"]
        mode = MODES[n % 4]
        op = ("optimise", "optimize")[n // 4 % 2]
        if t["print"]:
            fails, printed, _, other, err = once(exe, base, t, ["--config"], DOC, MODES[n % 2], op)
            t = dict(t, printed=printed)
            args = ["--config", "printed.json"]
            if fails:
                out.append(({"case": c, "op": op, "fails": True, "wrote": False, "marks": [], "untouched": other}, "--config: " + err[-300:]))
                continue
        else:
            args = args_of(c)
            other = True
        ops = [op] if args or mode != "stdin" else [op, "jsx"]
        for op in ops:
            fails, result, wrote, same, err = once(exe, base, t, args, DOC, mode, op)
            marks = [k for k, s in MARKS.items() if s not in result]
            out.append(({"case": c, "op": op, "fails": fails, "wrote": wrote, "marks": marks, "untouched": same and other}, "%s%s %s%s" % ("printed " if t["print"] else "", op, mode, " " + err[-200:] if fails else "")))
    return out


def canaries(c):
    case = {"named": 1, "preset": "safe", "local": 3, "base": 9}
    good = {"case": case, "op": "optimise", "fails": False, "wrote": True, "marks": ["removeComments"], "untouched": True}
    fail = dict(good, case=dict(case, named=9), fails=True, wrote=False, marks=[])
    recs = [good, fail, dict(good, marks=["removeTitle", "removeMetadata"]), dict(good, fails=True), dict(good, untouched=False), dict(fail, fails=False), dict(fail, wrote=True)]
    refused = {i for i, _ in c.validate("SourcesTrace", recs)}
    c.validated -= len(recs)
    if refused != set(range(2, len(recs))):
        raise lib.ToolError("the specification misjudges fixed runs: %s" % sorted(refused))


def run(c):
    exe = lib.build_cli()
    canaries(c)
    gen = lib.dedupe(c.tlc("GenSources", consts={"All": "TRUE"} if c.thorough else None).tagged)
    c.extra["arrangements_enumerated"] = len(gen)
    if c.thorough:
        import optrun
        gen = optrun.sample(gen, 20000, c.seed)
    items = [(n + c.seed, t) for n, t in enumerate(gen)]
    base = tempfile.mkdtemp(prefix="verif-c17-")
    try:
        work = [(exe, os.path.join(base, str(n)), items[n::16]) for n in range(16)]
        recs = [r for done in lib.pmap(one, work) for r in done]
    finally:
        shutil.rmtree(base)
    c.sample(json.dumps(recs[len(recs) // 2][0]))
    for i, t in c.validate("SourcesTrace", [r for r, _ in recs], chunk=(len(recs) + 7) // 8):
        rec, line = recs[i]
        case = rec["case"]
        c.violation("run-%s" % lib.digest(json.dumps(case) + line.split()[0]), "%s: %s: %s: %s" % (t["why"], t["what"], line, json.dumps(case)), {"why": t["why"], "what": t["what"], "record": rec})
    c.assumptions += ["a broken file that is not the one in effect may or may not make the command fail", "`--config` without a file together with `--extends` is outside the question"]
