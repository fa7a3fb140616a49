"""Writes generated documents as text (the inverse direction of svgmodel: model to concrete input)."""
import hashlib
from xml.sax.saxutils import escape, quoteattr

DEFS = {
    "gr": '<linearGradient id="gr"><stop offset="0" stop-color="red"/><stop offset="1" stop-color="#00f"/></linearGradient>',
    "cp": '<clipPath id="cp"><path d="M1 1h5v5z"/></clipPath>',
    "mk": '<mask id="mk"><path fill="#fff" d="M1 1h8v8z"/></mask>',
    "fl": '<filter id="fl"><feGaussianBlur stdDeviation="2"/></filter>',
    "mr": '<marker id="mr" markerWidth="4" markerHeight="4"><path d="M0 0h1v1z"/></marker>',
    "pt": '<pattern id="pt" width="4" height="4"><path d="M0 0h1v1z"/></pattern>',
}

# rules for one element: always, on one medium, in one state
STYLED = {"styled": "%s{%s}", "media": "@media print{%s{%s}}", "hover": "%s:hover{%s}"}


def build(case, root_attrs='xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink"'):
    attrs, rules, inner, kids = {}, [], [], {}
    for d in case["decs"]:
        if d["a"] in STYLED:  # a rule of the element's own
            attrs.setdefault(d["e"], []).append(("class", d["a"][0] + str(d["e"])))
            rules.append(STYLED[d["a"]] % ("." + d["a"][0] + str(d["e"]), d["v"]))
            continue
        if d["a"] == "anim":
            p, v = d["v"].split(":")
            kids.setdefault(d["e"], []).append(('<set attributeName="%s" to="%s" begin="1s"/>' if d["e"] % 2 else '<animate attributeName="%s" to="%s" dur="2s"/>') % (p, v))
            continue
        if d["e"] == 0 and d["a"] == "rule2":
            inner.append(d["v"])
        elif d["e"] == 0:
            rules.append(d["v"])
        else:
            attrs.setdefault(d["e"], []).append((d["a"], d["v"]))
    counter = [0]

    def write(t):
        if t["n"] == "#text":
            return escape(t["at"][0]["v"])
        counter[0] += 1
        me = counter[0]
        at = [(a["a"], a["v"]) for a in t["at"]]
        at += [(a, v) for a, v in attrs.get(me, []) if a not in dict(at)]
        cls = " ".join(v for a, v in at if a == "class")
        at = [(a, cls if a == "class" else v) for k, (a, v) in enumerate(at) if a != "class" or a not in dict(at[:k])]
        head = t["n"] + "".join(" %s=%s" % (a, quoteattr(v)) for a, v in at)
        body = "".join(write(k) for k in t["kids"]) + "".join(kids.get(me, []))
        if me == 1:
            used = [k for k in sorted(DEFS) if "#" + k in body + head + "".join(rules + inner)]
            style = "<style>%s</style>" % "\n".join(escape(r) for r in rules) if rules else ""
            defs = "<defs>%s</defs>" % "".join(DEFS[k] for k in used) if used else ""
            order = hashlib.sha256((body + style).encode()).digest()[0] % 3
            if inner:  # a second style sheet, deeper but earlier in the document
                style = "<g><style>%s</style></g>" % "\n".join(escape(r) for r in inner) + style
            body = style + (defs + body if order else body + defs)
            head = t["n"] + " " + root_attrs + head[len(t["n"]):]
        return "<%s>%s</%s>" % (head, body, t["n"]) if body else "<%s/>" % head
    return write(case["tree"])
