"""A reader of generated components: the subset of JavaScript with JSX they use.  Independent of the implementation."""
import html
import json
import re


class Bad(Exception):
    pass


NUMBER = re.compile(r"-?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?$")


def canon(s):
    """Numbers in one spelling."""
    return "%.10g" % float(s) if NUMBER.match(s) else s


def clean(s):
    """JSX text: lines are trimmed where they meet, empty ones vanish."""
    lines = re.split(r"\r\n|\n|\r", s)
    if len(lines) > 1:
        keep = []
        for i, x in enumerate(lines):
            if i:
                x = x.lstrip(" \t")
            if i < len(lines) - 1:
                x = x.rstrip(" \t")
            if x:
                keep.append(x)
        s = " ".join(keep)
    return html.unescape(s)


class Reader:
    def __init__(self, s):
        self.s, self.i = s, 0

    def ws(self):
        while True:
            m = re.compile(r"\s*").match(self.s, self.i)
            self.i = m.end()
            if self.s.startswith("/*", self.i):
                j = self.s.find("*/", self.i)
                if j < 0:
                    raise Bad("open comment")
                self.i = j + 2
            elif self.s.startswith("//", self.i):
                j = self.s.find("\n", self.i)
                self.i = len(self.s) if j < 0 else j
            else:
                return

    def at(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def take(self, t):
        if not self.at(t):
            raise Bad("expected %r at %r" % (t, self.s[self.i:self.i + 30]))
        self.i += len(t)

    def maybe(self, t):
        if self.at(t):
            self.i += len(t)
            return True
        return False

    def re(self, p):
        self.ws()
        m = re.compile(p).match(self.s, self.i)
        if not m:
            raise Bad("expected %s at %r" % (p, self.s[self.i:self.i + 30]))
        self.i = m.end()
        return m.group(0)

    def word(self):
        return self.re(r"[A-Za-z_$][\w$]*")

    def string(self):
        """A JavaScript string."""
        self.ws()
        q = self.s[self.i:self.i + 1]
        if q not in ("'", '"'):
            raise Bad("expected a string at %r" % self.s[self.i:self.i + 30])
        out = []
        i = self.i + 1
        while True:
            ch = self.s[i:i + 1]
            if ch in ("", "\n", "\r"):
                raise Bad("open string")
            if ch == q:
                break
            if ch == "\\":
                e = self.s[i + 1:i + 2]
                if e == "u":
                    m = re.compile(r"u\{([0-9a-fA-F]+)\}|u([0-9a-fA-F]{4})").match(self.s, i + 1)
                    if not m:
                        raise Bad("escape")
                    out.append(chr(int(m.group(1) or m.group(2), 16)))
                    i = m.end()
                elif e == "x":
                    out.append(chr(int(self.s[i + 2:i + 4], 16)))
                    i += 4
                else:
                    out.append({"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", "v": "\v", "0": "\0", "\n": ""}.get(e, e))
                    i += 2
            else:
                out.append(ch)
                i += 1
        self.i = i + 1
        return "".join(out)

    def is_string(self):
        return self.at('"') or self.at("'")

    def raw(self):
        """Any other expression, up to the brace closing it, without spaces."""
        self.ws()
        start, depth = self.i, 0
        out = []
        while True:
            ch = self.s[self.i:self.i + 1]
            if ch == "":
                raise Bad("open expression")
            if ch in "\"'":
                out.append(self.string())
                continue
            if ch in "{([":
                depth += 1
            if ch in "})]":
                if depth == 0:
                    break
                depth -= 1
            if not ch.isspace():
                out.append(ch)
            self.i += 1
        if self.i == start:
            raise Bad("no expression")
        return "=>" + "".join(out)

    def object(self):
        """A style: pairs of a name and a value."""
        self.take("{")
        out = []
        while not self.maybe("}"):
            k = self.string() if self.is_string() else self.word()
            self.take(":")
            v = self.string() if self.is_string() else self.re(r"-?[\d.]+(?:[eE][-+]?\d+)?")
            out.append([k, canon(v)])
            if not self.maybe(","):
                self.take("}")
                break
        return out

    def name(self):
        m = re.compile(r"[A-Za-z_$][\w$-]*(?::[A-Za-z_$][\w$-]*)?").match(self.s, self.i)
        if not m:
            raise Bad("expected a name at %r" % self.s[self.i:self.i + 30])
        self.i = m.end()
        return m.group(0)

    def element(self, spreads):
        self.take("<")
        name = self.name()
        attrs = []
        while True:
            before = self.i
            self.ws()
            if self.maybe("/>"):
                return node(name, attrs)
            if self.maybe(">"):
                break
            if self.i == before:
                raise Bad("space expected at %r" % self.s[self.i:self.i + 30])
            if self.maybe("{"):
                self.take("...")
                spreads.append([len(attrs), self.word(), name])
                self.take("}")
                continue
            a = self.name()
            decls = []
            if not self.maybe("="):
                v = "=>true"
            elif self.maybe("{"):
                if self.is_string():
                    v = self.string()
                elif self.at("{"):
                    decls, v = self.object(), ""
                else:
                    v = self.raw()
                    v = canon(v[2:]) if NUMBER.match(v[2:]) else v
                self.take("}")
            else:
                self.ws()
                q = self.s[self.i]
                if q not in "\"'":
                    raise Bad("value expected at %r" % self.s[self.i:self.i + 30])
                j = self.s.find(q, self.i + 1)
                if j < 0:
                    raise Bad("open attribute")
                v = html.unescape(self.s[self.i + 1:j])
                self.i = j + 1
            if v in ("=>true", "=>false") and a in ("preserveAlpha", "focusable", "autoReverse", "externalResourcesRequired"):
                v = v[2:]       # written as a word
            attrs.append({"n": a, "v": canon(v), "decls": decls})
        kids = []
        while True:
            m = re.compile(r"[^<{]*").match(self.s, self.i)
            text = m.group(0)
            if ">" in text or "}" in text:
                raise Bad("stray bracket in text %r" % text)
            self.i = m.end()
            if clean(text):
                kids.append(words(clean(text)))
            if self.s.startswith("</", self.i):
                self.i += 2
                self.ws()
                if self.name() != name:
                    raise Bad("closed another element than %s" % name)
                self.take(">")
                return node(name, attrs, join(kids))
            if self.s.startswith("<", self.i):
                kids.append(self.element(spreads))
                continue
            if not self.s.startswith("{", self.i):
                raise Bad("open element %s" % name)
            self.i += 1
            if self.maybe("}"):
                continue
            kids += self.child(spreads)
            self.take("}")

    def child(self, spreads):
        """What stands between braces among children."""
        if self.is_string():
            s = self.string()
            return [words(s)] if s else []
        test = self.word()
        if self.at("}"):
            return [dict(words(test), name="!")]
        if self.maybe("==="):
            self.take("undefined")
            self.take("?")
            a = self.element(spreads)
            self.take(":")
            return [node("?", [{"n": "unless", "v": test, "decls": []}], [a, self.element(spreads)])]
        self.take("?")
        a = self.element(spreads)
        self.take(":")
        self.take("null")
        return [node("?", [{"n": "when", "v": test, "decls": []}], [a])]


def node(name, attrs=(), kids=()):
    return {"name": name, "attrs": list(attrs), "text": "", "kids": list(kids)}


def words(s):
    return {"name": "", "attrs": [], "text": s, "kids": []}


def join(kids):
    out = []
    for k in kids:
        if out and k["name"] == "" and out[-1]["name"] == "":
            out[-1] = words(out[-1]["text"] + k["text"])
        else:
            out.append(k)
    return out


EXPORTS = {"react": {"React", "forwardRef", "memo"}, "preact": {"h"}, "preact/compat": {"h", "forwardRef", "memo", "React"}}


def component(text):
    """What the module exports."""
    r = Reader(text)
    imported, known = [], {}
    while r.maybe("import"):
        names = []
        if r.maybe("* as"):
            names.append(("*", r.word()))
        else:
            r.maybe("type ")
            if not r.at("{"):
                names.append(("default", r.word()))
                r.maybe(",")
            if r.maybe("{"):
                while not r.maybe("}"):
                    n = r.word()
                    names.append((n, r.word() if r.maybe("as ") else n))
                    r.maybe(",")
        r.take("from")
        src = r.string()
        r.maybe(";")
        for n, local in names:
            if n in ("*", "default") and src != "react-native-svg":
                n = "React"
            elif n == "default":
                n = "Svg"
            if local == n and (n in EXPORTS.get(src, ()) or src == "react-native-svg"):
                imported.append(n)
    tree, given, rest, ref, spreads, exported = None, [], "", False, [], None
    while r.i < len(r.s.rstrip()):
        if r.maybe("const "):
            n = r.word()
            r.take("=")
            if r.at("("):
                if tree is not None:
                    raise Bad("two components")
                r.take("(")
                rest, given, ref = params(r)
                r.take("=>")
                tree = r.element(spreads)
                known[n] = []
            else:
                f = r.word()
                r.take("(")
                inner = r.word()
                r.take(")")
                if inner not in known:
                    raise Bad("unknown " + inner)
                known[n] = known[inner] + [f]
            r.take(";")
        elif r.maybe("export default "):
            exported = (False, r.word(), "")
            r.take(";")
        elif r.maybe("export"):
            r.take("{")
            n = r.word()
            exported = (True, n, r.word() if r.maybe("as ") else "")
            r.take("}")
            r.take(";")
        else:
            raise Bad("statement expected at %r" % r.s[r.i:r.i + 30])
        r.ws()
    if tree is None or exported is None or exported[1] not in known:
        raise Bad("no component")
    if not spreads:
        where = "none"
    elif len(spreads) == 1 and spreads[0][1] == rest and spreads[0][2] == tree["name"]:
        n = len(tree["attrs"])
        where = ("end" if spreads[0][0] == n else "start" if spreads[0][0] == 0 else "between")
        if n == 0:
            where = "either"
    else:
        where = "elsewhere"
    return {"tree": tree, "given": given, "rest": rest not in ("", "_"), "spread": where, "ref": ref, "wrapped": known[exported[1]], "named": exported[0], "alias": exported[2], "imported": sorted(set(imported))}


def params(r):
    rest, given, ref = "", [], False
    if r.maybe(")"):
        return rest, given, ref
    if r.maybe("{"):
        while not r.maybe("}"):
            if r.maybe("..."):
                rest = r.word()
            else:
                given.append(r.word())
            r.maybe(",")
    else:
        rest = r.word()
    if r.maybe(","):
        ref = r.word() == "ref"
    r.take(")")
    if "ref" == rest:
        rest, ref = "", True
    return rest, given, ref


if __name__ == "__main__":
    import sys
    print(json.dumps(component(sys.stdin.read()), indent=1))
