"""Common machinery of all checks: building, running TLC, driving the code under test,
known findings, evidence and verdict."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself could not do its work (exit 2); says nothing about the property."""


def cargo_env():
    env = dict(os.environ)
    env["HOME"] = env.get("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(
        RUSTUP_TOOLCHAIN="1.99.1",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        RUSTC_WRAPPER="",
        CARGO_TERM_COLOR="never",
    )
    env.pop("CARGO_TARGET_DIR", None)
    return env


class Lock:
    """Builds of several checks started at once queue up."""

    def __init__(self, name):
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        self.path = os.path.join(VERIF, "work", name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_driver(*bins):
    """Builds drivers of /verif/harness against the current tree of the repository."""
    with Lock("build"):
        cmd = ["cargo", "build", "--offline", "--locked"]
        for b in bins:
            cmd += ["--bin", b]
        r = subprocess.run(cmd, cwd=HARNESS, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (bins, r.stdout[-4000:]))
    return [os.path.join(HARNESS, "target", "debug", b) for b in bins]


def build_cli():
    """Builds the oxvg command from the current tree; uses the repository's own target directory."""
    with Lock("build-cli"):
        cmd = ["cargo", "build", "--offline", "--locked", "-p", "oxvg", "--bin", "oxvg"]
        # the feature set of the whole workspace build is not reproduced by -p alone; that is fine,
        # both are builds of the same sources
        r = subprocess.run(cmd, cwd=REPO, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building the command failed:\n%s" % r.stdout[-4000:])
    return os.path.join(REPO, "target", "debug", "oxvg")


class Tlc:
    def __init__(self, out, rc, tagged):
        self.out, self.rc, self.tagged = out, rc, tagged
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"generated (\d+) states|(\d+) states checked", out.replace(",", ""))
            if m:
                self.generated = int([x for x in m[-1] if x][0])


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = self._load_known()
        self.known_seen = {}

    thorough = property(lambda self: self.tier == "thorough")

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, consts=None, env=None, args=(), workers="auto", timeout=800, heap="6g",
            count=True, ok_codes=(0,), tag=None):
        """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg (constants overridden by `consts`)."""
        cfgtext = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
        for k, v in (consts or {}).items():
            cfgtext, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?)%s\s*=.*$" % re.escape(k), r"\g<1>%s = %s" % (k, v), cfgtext)
            if n != 1:
                raise ToolError("constant %s not in %s" % (k, cfg or module))
        tag = tag or "%s-%d" % (module, len(os.listdir(self.work)))
        cfgpath = self.path(tag + ".cfg")
        open(cfgpath, "w").write(cfgtext)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-cp", JARS, "tlc2.TLC",
               "-metadir", self.path(tag + ".meta"), "-workers", str(workers), "-noGenerateSpecTE",
               "-config", cfgpath] + list(args) + [os.path.join(SPEC, module + ".tla")]
        outpath = self.path(tag + ".out")
        with open(outpath, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s exceeded %d s" % (module, timeout))
        tagged, rest = [], []
        with open(outpath, errors="replace") as f:
            for line in f:
                if line.startswith('"@@'):
                    try:
                        tagged.append(json.loads(json.loads(line)[2:]))
                    except ValueError as ex:
                        raise ToolError("unreadable line from TLC: %s (%s)" % (line[:300], ex))
                else:
                    rest.append(line)
        shutil.rmtree(self.path(tag + ".meta"), ignore_errors=True)
        res = Tlc("".join(rest), r.returncode, tagged)
        if r.returncode not in ok_codes:
            raise ToolError("TLC on %s ended with %d:\n%s" % (module, r.returncode, _tail(res.out)))
        if os.path.getsize(outpath) > 20_000_000:
            os.unlink(outpath)
        if count:
            self.states += res.distinct
            self.transitions += res.generated
        self.log("TLC %s: %d states, %d transitions, %d lines" % (module, res.distinct, res.generated, len(tagged)))
        return res

    def simulate(self, module, num, cfg=None, consts=None, env=None, depth=100, seed=None, timeout=600, heap="4g", tries=3):
        """TLC simulation from the run's seed."""
        return self.tlc(module, cfg, consts, env, args=["-simulate", "num=%d" % num, "-depth", str(depth),
                        "-seed", str(self.seed if seed is None else seed)], workers=1, timeout=timeout, heap=heap)

    def validate(self, module, records, cfg=None, consts=None, env=None, chunk=20000, procs=4, timeout=800, heap="4g"):
        """Validates recorded behaviours with TLC.  Returns the refusals: (index, refusal)."""
        bad = []
        todo = [(k, records[k:k + chunk]) for k in range(0, len(records), chunk)]
        procs = min(procs, len(todo)) or 1

        def one(job):
            k, part = job
            p = self.path("%s-%d.ndjson" % (module, k))
            write_lines(p, part)
            e = dict(env or {})
            e["TRACE"] = p
            res = self.tlc(module, cfg, consts, e, timeout=timeout, heap=heap, count=False, workers=max(1, 8 // procs), tag="%s-%d" % (module, k))
            if res.distinct < len(part):
                raise ToolError("%s looked at %d states for %d records:\n%s" % (module, res.distinct, len(part), _tail(res.out)))
            os.unlink(p)
            return k, res

        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            for k, res in ex.map(one, todo):
                for t in res.tagged:
                    bad.append((k + t["rec"] - 1, t))
        self.validated += len(records)
        return bad

    def binding(self, module, record, wrongs, **kw):
        """Falsifies a record that was accepted, in one place at a time: the specification has to refuse each."""
        if self.violations:
            return  # what was accepted may not be right
        recs = []
        for f in wrongs:
            r = json.loads(json.dumps(record))
            f(r)
            recs.append(r)
        refused = {i for i, _ in self.validate(module, recs, **kw)}
        self.validated -= len(recs)
        if refused != set(range(len(recs))):
            raise ToolError("%s accepts falsified records: %s" % (module, sorted(set(range(len(recs))) - refused)))
        self.extra["falsified_records_refused"] = len(recs)

    # -------------------------------------------------- driving the code
    def drive(self, binary, cases, name="cases", timeout=800, env=None, jobs=8):
        """Feeds JSON lines to a driver.  A driver that dies or hangs yields a record with `crash`."""
        n = len(cases)
        if n == 0:
            return []
        jobs = max(1, min(jobs, n // 50 + 1))
        parts = [cases[i * n // jobs:(i + 1) * n // jobs] for i in range(jobs)]
        running = []
        results = [[] for _ in parts]
        deadline = time.time() + timeout
        e = dict(os.environ)
        e.update(env or {})

        def start(i):
            inp, out = self.path("%s-%d.in" % (name, i)), self.path("%s-%d.out" % (name, i))
            if not os.path.exists(inp):
                write_lines(inp, parts[i])
            return subprocess.Popen([binary, inp, out, str(len(results[i]))], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                    preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))), out

        procs = {i: start(i) for i in range(len(parts))}
        while procs:
            for i in list(procs):
                p, out = procs[i]
                try:
                    rc = p.wait(timeout=0.05)
                except subprocess.TimeoutExpired:
                    if time.time() > deadline:
                        for q, _ in procs.values():
                            q.kill()
                        raise ToolError("driver %s exceeded %d s" % (binary, timeout))
                    continue
                got = read_lines(out, partial=True)
                results[i] += got
                del procs[i]
                if len(results[i]) < len(parts[i]):
                    if rc == 0:
                        raise ToolError("driver %s lost records" % binary)
                    crash = "hang" if rc == 97 else "died (%d)" % rc
                    r = dict(parts[i][len(results[i])])
                    r["crash"] = crash
                    results[i].append(r)
                    if len(results[i]) < len(parts[i]):
                        procs[i] = start(i)
        for i in range(len(parts)):
            for suffix in ("in", "out"):
                try:
                    os.unlink(self.path("%s-%d.%s" % (name, i, suffix)))
                except FileNotFoundError:
                    pass
        return [r for part in results for r in part]

    # --------------------------------------------------------- verdicts
    def _load_known(self):
        known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    known[m.group(2)] = m.group(3).strip()
        return known

    def violation(self, key, why, record):
        """A behaviour of the code that the specification refuses.  `key` names it stably."""
        if key in self.known:
            self.known_seen[key] = self.known_seen.get(key, 0) + 1
            return
        self.violations.append({"key": key, "why": why, "record": record})

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self):
        for k in sorted(self.known_seen):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, self.known[k], k))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "violations": len(self.violations), "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            replay = self.path("violations.json")
            with open(replay, "w") as f:
                json.dump(self.violations[:3000], f, indent=1)
            for v in self.violations[:5]:
                print("  refused: %s: %s" % (v["key"], str(v["why"])[:600]))
            print("  (%d refused in all)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        print("property %s held: %d model states, %d model transitions, %d behaviours of the code validated (%.0f s)" % (
            self.pid, self.states, self.transitions, self.validated, time.time() - self.t0))
        return 0


def _tail(text, n=40):
    lines = [l for l in text.splitlines() if not re.match(r"(Parsing|Semantic|Linting) ", l)]
    errs = [i for i, l in enumerate(lines) if l.startswith("Error:")]
    head = lines[errs[0]:errs[0] + 12] if errs else []
    return "\n".join(head + ["..."] + lines[-n:])


def write_lines(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x, ensure_ascii=True, separators=(",", ":")))
            f.write("\n")


def read_lines(path, partial=False):
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            if partial and not line.endswith("\n"):
                break
            out.append(json.loads(line))
    return out


def pmap(fn, items, workers=8):
    """fn over items in worker processes, in order."""
    items = list(items)
    with concurrent.futures.ProcessPoolExecutor(workers) as pool:
        return list(pool.map(fn, items, chunksize=max(1, len(items) // (workers * 8))))


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]


def dedupe(items):
    """Distinct items in an order of their own: TLC's workers print in any order."""
    seen = {json.dumps(x, sort_keys=True): x for x in items}
    return [seen[k] for k in sorted(seen)]
