"""C19: what an editor is told by the language server (spec/Lsp.tla, GenLsp.tla, LspTrace.tla)."""
import json
import os
import queue
import random
import re
import shutil
import subprocess
import tempfile
import threading
import time

import lib
import optrun
from props import c18

BAD = {0: "<svg", 1: ""}
WIDE = "é“𝄞"


def lay_out(t):
    if t["bad"]:
        return BAD[t["layout"]], {}
    doc = [dict(n, attrs=[dict(a, v=WIDE if a["v"] == "wide" else a["v"]) for a in n["attrs"]]) for n in t["doc"]]
    return c18.write(doc, t["layout"])


class Server:
    def __init__(self, exe, at, args):
        env = {"HOME": os.path.join(at, "home"), "PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
        self.p = subprocess.Popen([exe, "lint", "serve"] + args, cwd=at, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q = queue.Queue()
        self.n = 0
        self.shown = {}
        self.died = False
        threading.Thread(target=self.pump, daemon=True).start()

    def pump(self):
        out = self.p.stdout
        try:
            while True:
                size = None
                while True:
                    line = out.readline()
                    if not line:
                        raise EOFError
                    if line.strip() == b"":
                        break
                    k, v = line.split(b":", 1)
                    if k.lower() == b"content-length":
                        size = int(v)
                self.q.put(json.loads(out.read(size)))
        except (EOFError, ValueError, OSError):
            self.q.put(None)

    def send(self, msg):
        body = json.dumps(dict(msg, jsonrpc="2.0")).encode()
        try:
            self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(body) + body)
            self.p.stdin.flush()
        except OSError:
            self.died = True

    def take(self, timeout):
        m = self.q.get(timeout=timeout)
        if m is None:
            self.died = True
        elif m.get("method") == "textDocument/publishDiagnostics":
            self.shown[m["params"]["uri"]] = m["params"]["diagnostics"]
        return m

    def ask(self, method, params=None):
        """A question, and its answer: whatever the answer is, earlier notices have been received."""
        self.n += 1
        self.send({"id": self.n, "method": method, "params": params or {}})
        end = time.time() + 60
        while not self.died and time.time() < end:
            try:
                m = self.take(max(0.01, end - time.time()))
            except queue.Empty:
                break
            if m and m.get("id") == self.n and "method" not in m:
                return True
        self.died = True
        return False

    def settle(self, notices):
        """Everything sent has been dealt with: as many answers as notices, then silence."""
        for _ in range(notices + 1):
            if not self.ask("verif/nothing"):
                return
        while not self.died:
            try:
                self.take(0.25)
            except queue.Empty:
                return

    def end(self):
        self.p.kill()
        self.p.wait()


def offset(text, pos):
    """Where a position of the protocol is: lines, and UTF-16 units in them."""
    lines = text.split("\n")
    if pos["line"] >= len(lines):
        return -1
    line = lines[pos["line"]].encode("utf-16-le")
    if 2 * pos["character"] > len(line):
        return -1
    before = "\n".join(lines[:pos["line"]])
    return len(before.encode()) + (1 if pos["line"] else 0) + len(line[:2 * pos["character"]].decode("utf-16-le", "replace").encode())


SEVERITY = {1: "error", 2: "warn"}


def item(d, text, spans):
    r = d["range"]
    node, attr, part = c18.place(spans, offset(text, r["start"]), offset(text, r["end"]))
    return {"node": node, "attr": attr, "part": part, "severity": SEVERITY.get(d.get("severity"), "none"), "words": [w.strip('"') for w in re.findall(r"[`<]([^`>]*)[`>]", d["message"])]}


def session(work):
    exe, base, n, history, texts, step = work
    at = os.path.join(base, str(n))
    os.makedirs(os.path.join(at, "home"))
    rng = random.Random(n)
    rules = c18.RECOMMENDED if rng.random() < .5 else {r: rng.choice(["error", "warn", "warn", "off"]) for r in c18.RULES}
    args = []
    if rules is not c18.RECOMMENDED:
        name = rng.choice(["oxvgrc.json", "named.json"])
        with open(os.path.join(at, name), "w") as f:
            json.dump({"lint": c18.settings(rules)}, f)
        args = ["--config", name] if name == "named.json" else []
    uri = {u: "file://%s/%s.svg" % (at, u) for u in "abc"}
    s = Server(exe, at, args)
    rec = {"history": history, "rules": rules, "died": False, "seen": []}
    try:
        s.ask("initialize", {"capabilities": {}})
        s.send({"method": "initialized", "params": {}})
        now, version, sent = {}, 0, 0
        for k, m in enumerate(history):
            version += 1
            doc = {"uri": uri[m["doc"]]}
            if m["op"] == "close":
                s.send({"method": "textDocument/didClose", "params": {"textDocument": doc}})
                now.pop(m["doc"], None)
            else:
                now[m["doc"]] = m["text"]
                text = texts[m["text"] - 1][0]
                if m["op"] == "open":
                    s.send({"method": "textDocument/didOpen", "params": {"textDocument": dict(doc, languageId="svg", version=version, text=text)}})
                else:
                    earlier = [{"text": texts[rng.randrange(len(texts))][0]}] if rng.random() < .2 else []
                    s.send({"method": "textDocument/didChange", "params": {"textDocument": dict(doc, version=version), "contentChanges": earlier + [{"text": text}]}})
            sent += 1
            if step or k == len(history) - 1:
                s.settle(sent)
                sent = 0
                back = {v: u for u, v in uri.items()}
                shown = []
                for v, ds in s.shown.items():
                    u = back.get(v, v)
                    text, spans = texts[now[u] - 1] if u in now else ("", {})
                    shown.append({"doc": u, "items": [item(d, text, spans) for d in ds]})
                rec["seen"].append({"after": k + 1, "shown": shown})
            if s.died:
                break
        rec["died"] = s.died
    finally:
        s.end()
        shutil.rmtree(at)
    return rec


def canaries(c):
    h = [{"op": "open", "doc": "a", "text": 2}, {"op": "change", "doc": "a", "text": 1}, {"op": "open", "doc": "b", "text": 4}]
    one = {"node": 2, "attr": 1, "part": "value", "severity": "warn", "words": ["a"]}
    s1, s2 = {"after": 1, "shown": [{"doc": "a", "items": [one]}]}, {"after": 2, "shown": [{"doc": "a", "items": []}]}
    good = {"history": h, "rules": c18.RECOMMENDED, "died": False, "seen": [s1, s2, dict(s2, after=3)]}

    def changed(k, items, doc="a"):
        return dict(good, seen=good["seen"][:k] + [dict(good["seen"][k], shown=[{"doc": doc, "items": items}])] + good["seen"][k + 1:])

    recs = [good, dict(good, seen=[s1]), changed(0, []), changed(1, [one]), changed(0, [dict(one, severity="error")]), changed(0, [dict(one, part="name")]), changed(0, [one, one]), changed(0, [one], "b"), dict(good, died=True), changed(0, [dict(one, words=["b"])])]
    refused = {i for i, _ in c.validate("LspTrace", recs)}
    c.validated -= len(recs)
    if refused != set(range(2, len(recs))):
        raise lib.ToolError("the specification misjudges fixed sessions: %s" % sorted(refused))


def run(c):
    exe = lib.build_cli()
    c.tlc("Lsp", cfg="LspMC")
    canaries(c)
    out = lib.dedupe(c.tlc("GenLsp").tagged)
    texts = [lay_out(t) for t in next(t for t in out if "texts" in t)["texts"]]
    short = [t["history"] for t in out if "history" in t]
    long = [t["history"] for t in lib.dedupe(c.simulate("GenLsp", 1500 if c.thorough else 150, cfg="GenLspLong", depth=14).tagged) if "history" in t]
    c.extra.update(sessions_enumerated=len(short), sessions_simulated=len(long))
    short = optrun.sample(short, 3000 if c.thorough else 160, c.seed)
    base = tempfile.mkdtemp(prefix="verif-c19-")
    try:
        work = [(exe, base, c.seed * 100003 + n, h, texts, n % 2 == 0 or n < len(short)) for n, h in enumerate(short + long)]
        recs = lib.pmap(session, work)
    finally:
        shutil.rmtree(base)
    c.sample(json.dumps(recs[0]))
    for i, t in c.validate("LspTrace", recs, chunk=(len(recs) + 7) // 8):
        c.violation("session-" + lib.digest([t["why"], recs[i]["history"]]), "%s: %s: %s" % (t["why"], t["what"], json.dumps(recs[i]["history"])), {"why": t["why"], "what": t["what"], "record": recs[i]})
    c.assumptions += ["a notice counts as dealt with when as many later questions as there were notices have been answered and nothing came for a quarter of a second", "what is shown for a closed document is not judged", "positions are in UTF-16 units, as the protocol has it when nothing else is agreed"]
