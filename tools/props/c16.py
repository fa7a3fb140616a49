"""C16: files in, files out (spec/Files.tla, Workers.tla, GenFiles.tla, FilesTrace.tla)."""
import json
import os
import shutil
import subprocess
import tempfile

import lib
import optrun

ARGS = {"optimise": [], "format": [], "action": []}
TAIL = {"optimise": [], "format": [], "action": ["--", "-select", "rect", "-attr", "fill", "red", "-forget"]}
BIN = b'<svg xmlns="http://www.w3.org/2000/svg">\xff\xfe</svg>'


def content(kind, c):
    """Text of a file; no two files are alike, nor are their results."""
    if kind == "bin":
        return BIN + c.encode()
    if kind == "bad":
        return ("<svg xmlns=\"http://www.w3.org/2000/svg\"><rect width='%s'></svg>" % c).encode()
    if kind == "other":
        return ("<svg xmlns=\"http://www.w3.org/2000/svg\"><rect width='%s' height='%s'/></svg>" % (c, c)).encode()
    shapes = "".join("<g><rect x='%s' y='%d' width='10.0000' height='%s' fill='#ff0000'/><circle r='%d' fill='rgb(0,0,%s)'/></g>" % (c, k, c, k + 1, c) for k in range(1 + int(c) % 4))
    return ("<svg xmlns=\"http://www.w3.org/2000/svg\" viewBox='0 0 99 99'><!-- %s -->%s</svg>" % (c, shapes)).encode()


def env(home):
    return {"HOME": home, "PATH": "/usr/bin:/bin", "GIT_CONFIG_GLOBAL": "/dev/null"}


def solo(exe, op, text, home):
    """What the command makes of a document given on its own."""
    r = subprocess.run([exe, op] + ARGS[op] + TAIL[op], input=text, capture_output=True, cwd=home, env=env(home), timeout=60)
    return r.stdout


def lay(root, tree):
    for path, what in sorted(tree, key=lambda x: len(x[0])):
        at = os.path.join(root, *path)
        os.makedirs(os.path.dirname(at), exist_ok=True)
        if what[0] == "dir":
            os.makedirs(at, exist_ok=True)
        else:
            with open(at, "wb") as f:
                f.write(("\n".join(what[1]) + "\n").encode() if what[0] == "rules" else content(what[0], what[1]))


def look(root, tree, known):
    """The tree as it is now, told by the contents known."""
    rules = {tuple(p): w for p, w in tree if w[0] == "rules"}
    seen = []
    for here, dirs, files in os.walk(root):
        rel = [] if here == root else os.path.relpath(here, root).split(os.sep)
        if rel:
            seen.append([rel, ["dir"]])
        for f in files:
            p = rel + [f]
            with open(os.path.join(here, f), "rb") as h:
                data = h.read()
            if tuple(p) in rules and data == ("\n".join(rules[tuple(p)][1]) + "\n").encode():
                seen.append([p, rules[tuple(p)]])
            else:
                seen.append([p, known.get(data, ["unknown", lib.digest(data.decode("utf8", "replace"))])])
    return seen


def split(data, known):
    """The results a stream is made of, in some order; anything else is told as it is."""
    out = []
    results = sorted((k for k, v in known.items() if v[0] == "done"), key=len, reverse=True)
    rest = data
    while rest:
        for r in results:
            if r and rest.startswith(r):
                out.append(known[r][1])
                rest = rest[len(r):]
                break
        else:
            if rest.strip() == b"":
                break
            out.append("garbled")
            break
    return out


def one(args):
    exe, base, items = args
    out = []
    results = {}
    for n, t in enumerate(items):
        home = os.path.join(base, str(n))
        root = os.path.join(home, "t")
        os.makedirs(root)
        lay(root, t["tree"])
        known = {}
        for p, w in t["tree"]:
            if w[0] in ("dir", "rules"):
                continue
            data = content(w[0], w[1])
            known[data] = w
            if w[0] == "svg":
                if (t["op"], w[1]) not in results:
                    results[t["op"], w[1]] = solo(exe, t["op"], data, home)
                known[results[t["op"], w[1]]] = ["done", w[1]]
        cmd = t["cmd"]
        argv = [exe, t["op"]] + ARGS[t["op"]] + ["--threads", str(t["threads"])] + (["-r"] if cmd["recursive"] else []) + (["--hidden"] if cmd["hidden"] else []) + (["--no-ignore"] if cmd["noIgnore"] else [])
        if cmd["out"] != "stdout":
            argv += ["--quiet"]
        argv += ["/".join(p) for p in cmd["inputs"]]
        if cmd["out"] == "inplace":
            argv += ["-o"]
        elif cmd["out"] == "to":
            argv += ["-o", "/".join(cmd["to"])]
        argv += TAIL[t["op"]]
        rec = {"tree": t["tree"], "cmd": cmd, "hung": False}
        try:
            r = subprocess.run(argv, cwd=root, env=env(home), stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
            rec["printed"] = split(r.stdout, known)
            rec["reported"] = bool(r.stderr.strip()) or r.returncode != 0
        except subprocess.TimeoutExpired:
            rec.update(hung=True, printed=[], reported=False)
        rec["after"] = look(root, t["tree"], known)
        out.append((rec, " ".join(os.path.basename(a) if a == exe else a for a in argv)))
        shutil.rmtree(home)
    return out


def crowd(seed):
    """Many files and workers, to standard output and in place: what one worker does must not show in another's result."""
    for out in ("stdout", "inplace"):
        for threads in (1, 8):
            names = ["a.svg", "b.svg", "c.svg", "e.svg"]
            tree, k = [[["d"], ["dir"]]], 0
            for a in range(30):
                tree.append([["d", "s%d" % a], ["dir"]])
                for n in names:
                    k += 1
                    tree.append([["d", "s%d" % a, n], ["svg", str(100 + k)]])
            yield {"tree": tree, "op": "optimise", "threads": threads, "cmd": {"inputs": [["d"]], "recursive": True, "hidden": False, "noIgnore": False, "out": out, "to": ["o"]}}


def canaries(c):
    tree = [[["a.svg"], ["svg", "1"]], [["d"], ["dir"]], [["d", "b.svg"], ["svg", "2"]], [["d", "c.svg"], ["bad", "3"]]]
    cmd = {"inputs": [["a.svg"], ["d"]], "recursive": False, "hidden": False, "noIgnore": False, "out": "to", "to": ["o"]}
    good = tree + [[["o"], ["dir"]], [["o", "a.svg"], ["done", "1"]], [["o", "b.svg"], ["done", "2"]]]

    def rec(after, reported=True, printed=()):
        return {"tree": tree, "cmd": cmd, "hung": False, "after": after, "printed": list(printed), "reported": reported}
    recs = [rec(good), rec(good[:-1]), rec(good[:-1] + [[["o", "b.svg"], ["done", "1"]]]), rec(good + [[["o", "c.svg"], ["unknown", "x"]]]), rec(good, reported=False), rec(good, printed=["1"]),
            rec([[["a.svg"], ["done", "1"]]] + good[1:]), rec(good[1:])]
    refused = {i for i, _ in c.validate("FilesTrace", recs)}
    c.validated -= len(recs)
    if refused != set(range(1, len(recs))):
        raise lib.ToolError("the specification misjudges fixed runs: %s" % sorted(refused))


def run(c):
    exe = lib.build_cli()
    canaries(c)
    c.tlc("Workers")
    gen = lib.dedupe(c.tlc("GenFiles").tagged)
    sim = lib.dedupe(c.simulate("GenFiles", 2000 if c.thorough else 150, cfg="GenFilesSim", depth=10).tagged)
    c.extra["commands_enumerated"] = len(gen)
    gen = optrun.sample(gen, len(gen) if c.thorough else 900, c.seed) + optrun.sample(sim, 20000 if c.thorough else 900, c.seed)
    base = tempfile.mkdtemp(prefix="verif-c16-")
    try:
        crowds = list(crowd(c.seed)) * (6 if c.thorough else 2)
        work = [gen[n::16] for n in range(16)]
        for n in range(16):
            os.makedirs(os.path.join(base, str(n)))
        os.makedirs(os.path.join(base, "crowd"))
        recs = [x for part in lib.pmap(one, [(exe, os.path.join(base, str(n)), part) for n, part in enumerate(work)]) for x in part]
        recs += one((exe, os.path.join(base, "crowd"), crowds))
    finally:
        shutil.rmtree(base)
    c.sample(recs[0][1])
    small = [k for k, (r, _) in enumerate(recs) if len(r["tree"]) < 100]
    large = [k for k, (r, _) in enumerate(recs) if len(r["tree"]) >= 100]
    for group in (small, large):
        if not group:
            continue
        for i, t in c.validate("FilesTrace", [recs[k][0] for k in group], chunk=(len(group) + 7) // 8):
            rec, line = recs[group[i]]
            key = "run-%s" % lib.digest(line + json.dumps(rec["tree"]))
            tree = sorted("/".join(p) + ("" if w[0] in ("dir", "svg", "other") else "(%s %s)" % (w[0], " ".join(w[1]) if w[0] == "rules" else "")) for p, w in rec["tree"])
            after = sorted("%s=%s" % ("/".join(p), ":".join(map(str, w))) for p, w in rec["after"] if [p, w] not in rec["tree"])
            c.violation(key, "%s: `%s` in %s left %s, printed %s" % (t["why"], line, tree[:25], after[:12], rec["printed"][:12]), {"why": t["why"], "line": line, "record": rec})
    c.assumptions += ["two results for one place, results that are inputs of the same command, and the path `.` are outside the question"]
