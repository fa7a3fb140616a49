"""C21: conditional rules, animations and what scripts may refer to.

Conditional rules and animations: documents of spec/GenPaint.tla (family "cond") judged by RenderTrace.tla under every
condition.  Scripts: documents of spec/GenScript.tla judged by ScriptTrace.tla."""
import lib
import optrun
import svgmodel
import svgtext
from props import c11

# removing hidden content and applying transforms are documented as not supporting animations
STILL = ("remove_hidden_elems", "apply_transforms")
RUNS = [("none", "none")] + [(j, optrun.single(j)) for j in optrun.DEFAULT_JOBS]
PRESETS = [("safe", "safe"), ("default", "default")]
CAREFUL = ["cleanup_ids", "remove_useless_stroke_and_fill", "minify_styles", "remove_hidden_elems"]


def has(d, *kinds):
    return any(x["a"] in kinds for x in d["decs"])


def scripted(d):
    parts = [d["parts"][k] for k in sorted(d["names"])]
    rules = "".join(t for w, t in parts if w == "rule")
    head = d["kind"][1:] if d["kind"].startswith("@") else ""
    body = "".join(t for w, t in parts if w == "body") + ("" if head else d["kind"])
    return ('<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" %s>%s%s</svg>' % (
        head, "<style>%s</style>" % rules if rules else "", body)).replace("'", '"')


def scripts(c, drv):
    docs = c.tlc("GenScript", consts={} if c.thorough else {"MaxParts": 4}).tagged
    docs = list({scripted(d): d for d in docs}.items())
    runs = [("none", "none")] + [(j, optrun.single(j)) for j in CAREFUL]
    recs = optrun.drive(c, drv, [t for t, _ in docs], runs, name="script")
    out, meta, active = [], [], {j: 0 for j in CAREFUL}
    for (text, d), r in zip(docs, recs):
        if "crash" in r or any("svg" not in o for o in r["outs"]):
            c.violation("script-" + lib.digest(text), "a job gives no result for %s: %s" % (text, str(r.get("outs", r.get("crash")))[:300]), {"svg": text})
            continue
        plain = svgmodel.read(r["outs"][0]["svg"])
        for j, o in zip(CAREFUL, r["outs"][1:]):
            active[j] += not d["scripted"] and o["svg"] != r["outs"][0]["svg"]
        out.append({"plain": plain, "scripted": d["scripted"], "after": [{"job": j, "doc": svgmodel.read(o["svg"])} for j, o in zip(CAREFUL, r["outs"][1:])]})
        meta.append((text, {j: o["svg"] for j, o in zip(["none"] + CAREFUL, r["outs"])}))
    c.extra["documents_changed_without_scripts"] = active
    for i, t in c.validate("ScriptTrace", out, chunk=(len(out) + 3) // 4):
        text, outs = meta[i]
        c.violation("script-%s-%s" % (t["job"], lib.digest(text)), "%s %s: %s became %s" % (t["job"], t["why"], text, outs[t["job"]]),
                    {"svg": text, "job": t["job"], "out": outs[t["job"]]})
    for r in [r for r in out if r["scripted"]][:1]:
        c.binding("ScriptTrace", r, [lambda r: r.update(scripted=False), lambda r: r["after"][0]["doc"]["nodes"].pop(), lambda r: r["after"][1]["doc"]["nodes"].pop()])


def run(c):
    (drv,) = lib.build_driver("h_opt")
    ones = lib.dedupe(c.tlc("GenPaint", consts={"MaxDecs": 1, "Family": '"cond"'}).tagged)
    pairs = lib.dedupe(c.tlc("GenPaint", consts={"MaxDecs": 2, "Family": '"cond"'}).tagged)
    c.extra["documents_enumerated"] = len(ones) + len(pairs)
    docs = ones + optrun.sample(pairs, 30000 if c.thorough else 6000, c.seed)
    moving = sorted({svgtext.build(d) for d in docs if has(d, "anim")})
    still = sorted({svgtext.build(d) for d in docs if has(d, "media", "hover") and not has(d, "anim")})
    c.sample(still[len(still) // 2])
    c.sample(moving[len(moving) // 2])
    c11.judge(c, drv, still + [c11.NS % c11.NOTED[0]], RUNS + PRESETS)
    c11.judge(c, drv, moving, [r for r in RUNS if r[0] not in STILL])
    scripts(c, drv)
    c.assumptions += [
        "removing hidden content and applying transforms are documented as not supporting animations; they are judged without",
        "inlining styles and collapsing groups do not claim to keep names for scripts",
    ]
