"""Reads SVG text into the vocabulary of the specifications.

This is the abstraction function between concrete text and the model: it only lexes (XML through
expat, numbers, colours, path and transform syntax, CSS rules and selectors).  What the parts mean
(cascade, inheritance, references, transforms, outlines) is said by the TLA+ modules.  It shares no
code with the implementation."""
import re
import xml.parsers.expat as expat

SVG = "http://www.w3.org/2000/svg"
XLINK = "http://www.w3.org/1999/xlink"
XMLNS = "http://www.w3.org/XML/1998/namespace"

GEO = 100  # scale of coordinates
NUM = 1000  # scale of plain numbers


class Unreadable(Exception):
    pass


# ------------------------------------------------------------------ XML
def read_xml(text):
    """The document as a list of nodes: 1 is the document, then preorder."""
    nodes = [{"k": "d", "par": 0, "kids": [], "ns": "", "n": "#document", "at": [], "t": "", "px": "", "decl": []}]
    stack = [1]
    pending = []
    p = expat.ParserCreate(namespace_separator="\n")
    p.namespace_prefixes = True
    p.ordered_attributes = True
    p.buffer_text = False

    def add(k, **kw):
        n = {"k": k, "par": stack[-1], "kids": [], "ns": "", "n": "", "at": [], "t": "", "px": "", "decl": []}
        n.update(kw)
        nodes.append(n)
        i = len(nodes)
        nodes[stack[-1] - 1]["kids"].append(i)
        return i

    def name(s):
        parts = s.split("\n")
        if len(parts) == 1:
            return "", parts[0], ""
        return parts[0], parts[1], parts[2] if len(parts) > 2 else ""

    def start(nm, at):
        ns, n, px = name(nm)
        attrs = []
        for i in range(0, len(at), 2):
            ans, an, apx = name(at[i])
            attrs.append([ans, an, at[i + 1], apx])
        stack.append(add("e", ns=ns, n=n, px=px, at=attrs, decl=sorted(pending)))
        pending.clear()

    def end(nm):
        stack.pop()

    def chars(s):
        kids = nodes[stack[-1] - 1]["kids"]
        if kids and nodes[kids[-1] - 1]["k"] == "t":
            nodes[kids[-1] - 1]["t"] += s
        else:
            add("t", t=s)

    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.CommentHandler = lambda s: add("c", t=s)
    p.ProcessingInstructionHandler = lambda t, s: add("p", n=t, t=s)
    p.StartNamespaceDeclHandler = lambda pre, uri: pending.append([pre or "", uri or ""])
    p.XmlDeclHandler = lambda v, e, s: add("x", t="%s %s %s" % (v, e, s))
    p.StartDoctypeDeclHandler = lambda nm, sysid, pub, internal: add("y", n=nm, t="%s %s" % (sysid, pub))
    try:
        p.Parse(text_bytes(text), True)
    except expat.ExpatError as e:
        raise Unreadable(str(e))
    return nodes


def text_bytes(t):
    return t.encode("utf-8") if isinstance(t, str) else t


# -------------------------------------------------------------- numbers
UNIT = {"": 1, "px": 1, "pt": 96 / 72, "pc": 16, "in": 96, "cm": 96 / 2.54, "mm": 96 / 25.4}
NUMRE = re.compile(r"[+-]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?")


def number(s):
    s = s.strip()
    return float(s) if NUMRE.fullmatch(s) else None


def length(s):
    """A length in px, or None when it is not an absolute length."""
    m = re.fullmatch(r"\s*(" + NUMRE.pattern + r")\s*([a-zA-Z]*)\s*", s)
    if not m or m.group(2).lower() not in UNIT:
        return None
    return float(m.group(1)) * UNIT[m.group(2).lower()]


def rnd(x, scale):
    v = x * scale
    r = int(abs(v) + 0.5)
    return r if v >= 0 else -r


# -------------------------------------------------------------- colours
NAMED = {}
for _l in """aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff aquamarine 7fffd4 azure f0ffff beige f5f5dc bisque ffe4c4
black 000000 blanchedalmond ffebcd blue 0000ff blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0
chartreuse 7fff00 chocolate d2691e coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff
darkblue 00008b darkcyan 008b8b darkgoldenrod b8860b darkgray a9a9a9 darkgreen 006400 darkgrey a9a9a9 darkkhaki bdb76b
darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00 darkorchid 9932cc darkred 8b0000 darksalmon e9967a
darkseagreen 8fbc8f darkslateblue 483d8b darkslategray 2f4f4f darkslategrey 2f4f4f darkturquoise 00ced1
darkviolet 9400d3 deeppink ff1493 deepskyblue 00bfff dimgray 696969 dimgrey 696969 dodgerblue 1e90ff
firebrick b22222 floralwhite fffaf0 forestgreen 228b22 fuchsia ff00ff gainsboro dcdcdc ghostwhite f8f8ff gold ffd700
goldenrod daa520 gray 808080 green 008000 greenyellow adff2f grey 808080 honeydew f0fff0 hotpink ff69b4
indianred cd5c5c indigo 4b0082 ivory fffff0 khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00
lemonchiffon fffacd lightblue add8e6 lightcoral f08080 lightcyan e0ffff lightgoldenrodyellow fafad2 lightgray d3d3d3
lightgreen 90ee90 lightgrey d3d3d3 lightpink ffb6c1 lightsalmon ffa07a lightseagreen 20b2aa lightskyblue 87cefa
lightslategray 778899 lightslategrey 778899 lightsteelblue b0c4de lightyellow ffffe0 lime 00ff00 limegreen 32cd32
linen faf0e6 magenta ff00ff maroon 800000 mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3
mediumpurple 9370db mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc
mediumvioletred c71585 midnightblue 191970 mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5 navajowhite ffdead
navy 000080 oldlace fdf5e6 olive 808000 olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6
palegoldenrod eee8aa palegreen 98fb98 paleturquoise afeeee palevioletred db7093 papayawhip ffefd5 peachpuff ffdab9
peru cd853f pink ffc0cb plum dda0dd powderblue b0e0e6 purple 800080 rebeccapurple 663399 red ff0000 rosybrown bc8f8f
royalblue 4169e1 saddlebrown 8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57 seashell fff5ee sienna a0522d
silver c0c0c0 skyblue 87ceeb slateblue 6a5acd slategray 708090 slategrey 708090 snow fffafa springgreen 00ff7f
steelblue 4682b4 tan d2b48c teal 008080 thistle d8bfd8 tomato ff6347 turquoise 40e0d0 violet ee82ee wheat f5deb3
white ffffff whitesmoke f5f5f5 yellow ffff00 yellowgreen 9acd32""".split("\n"):
    _w = _l.split()
    for _i in range(0, len(_w), 2):
        NAMED[_w[_i]] = _w[_i + 1]


def colour(s):
    """rrggbbaa, or None."""
    s = s.strip().lower()
    if s in NAMED:
        return NAMED[s] + "ff"
    if s == "transparent":
        return "00000000"
    m = re.fullmatch(r"#([0-9a-f]{3}|[0-9a-f]{4}|[0-9a-f]{6}|[0-9a-f]{8})", s)
    if m:
        h = m.group(1)
        if len(h) <= 4:
            h = "".join(c * 2 for c in h)
        return h if len(h) == 8 else h + "ff"
    m = re.fullmatch(r"(rgb|rgba|hsl|hsla)\(([^()]*)\)", s)
    if not m:
        return None
    parts = [x for x in re.split(r"[\s,/]+", m.group(2).strip()) if x]
    if len(parts) not in (3, 4):
        return None

    def pct(x, full):
        if x.endswith("%"):
            v = number(x[:-1])
            return None if v is None else v * full / 100
        return number(x)

    if m.group(1).startswith("rgb"):
        ch = [pct(x, 255) for x in parts[:3]]
    else:
        hue, sat, lig = number(parts[0].replace("deg", "")), pct(parts[1], 1), pct(parts[2], 1)
        if None in (hue, sat, lig):
            return None
        import colorsys
        ch = [255 * v for v in colorsys.hls_to_rgb((hue % 360) / 360, min(max(lig, 0), 1), min(max(sat, 0), 1))]
    alpha = pct(parts[3], 1) if len(parts) == 4 else 1.0
    if None in ch or alpha is None:
        return None
    ch = [min(255, max(0, int(v + 0.5))) for v in ch]
    return "%02x%02x%02x%02x" % (ch[0], ch[1], ch[2], min(255, max(0, int(alpha * 255 + 0.5))))


# ---------------------------------------------------------- properties
PAINT = {"fill", "stroke"}
COLOUR = {"color", "stop-color", "flood-color", "lighting-color"}
ALPHA = {"opacity", "fill-opacity", "stroke-opacity", "stop-opacity", "flood-opacity"}
NUMBERS = {"stroke-miterlimit"}
LENGTHS = {"stroke-width", "stroke-dashoffset", "font-size", "letter-spacing", "word-spacing"}
WORDS = {"fill-rule", "clip-rule", "stroke-linecap", "stroke-linejoin", "display", "visibility", "overflow", "paint-order",
         "vector-effect", "mix-blend-mode", "isolation", "shape-rendering", "text-rendering", "image-rendering",
         "color-interpolation", "color-interpolation-filters", "pointer-events", "cursor", "font-family", "font-weight", "font-style",
         "font-variant", "text-anchor", "dominant-baseline", "alignment-baseline", "baseline-shift", "text-decoration",
         "direction", "unicode-bidi", "writing-mode", "clip", "enable-background", "font-stretch", "color-rendering"}
URLS = {"clip-path", "mask", "filter", "marker-start", "marker-mid", "marker-end"}
PROPERTIES = PAINT | COLOUR | ALPHA | NUMBERS | LENGTHS | WORDS | URLS | {"stroke-dasharray"}
CSS_ONLY = {"marker", "mix-blend-mode", "isolation"}


def url(s):
    m = re.match(r"""\s*url\(\s*(['"]?)(.*?)\1\s*\)\s*""", s)
    if not m:
        return None
    return m.group(2), s[m.end():].strip()


def unescape_id(s):
    from urllib.parse import unquote
    return unquote(s)


def value(prop, s):
    """The value of a property in model form, or None when it is not valid."""
    s = s.strip()
    low = s.lower()
    if low == "inherit":
        return ["s", "inherit"]
    if prop in PAINT or prop in COLOUR:
        if prop in PAINT:
            if low == "none":
                return ["s", "none"]
            if low in ("context-fill", "context-stroke"):
                return ["s", low]
            u = url(s)
            if u:
                back = value(prop, u[1]) if u[1] else ["s", "none"]
                return ["u", unescape_id(u[0][1:]) if u[0].startswith("#") else u[0], back or ["s", "none"]]
        if low == "currentcolor":
            return ["s", "currentcolor"]
        c = colour(s)
        return ["c", c] if c else None
    if prop in ALPHA:
        v = number(low[:-1]) if low.endswith("%") else number(low)
        if v is None:
            return None
        v = v / 100 if low.endswith("%") else v
        return ["n", rnd(min(1, max(0, v)), NUM)]
    if prop in NUMBERS:
        v = number(low)
        return None if v is None else ["n", rnd(v, NUM)]
    if prop in LENGTHS:
        v = length(low)
        if v is not None:
            return ["n", rnd(v, NUM)]
        return ["s", low] if low else None
    if prop == "stroke-dasharray":
        if low == "none":
            return ["l", []]
        vs = [length(x) for x in re.split(r"[\s,]+", low) if x]
        if None in vs or not vs:
            return ["s", re.sub(r"[\s,]+", " ", low)] if low else None
        if len(vs) % 2:
            vs = vs * 2
        if not any(vs):
            return ["l", []]
        return ["l", [rnd(v, NUM) for v in vs]]
    if prop in URLS:
        if low == "none":
            return ["s", "none"]
        u = url(s)
        if u:
            return ["u", unescape_id(u[0][1:]) if u[0].startswith("#") else u[0], ["s", "none"]]
        return ["s", low] if low else None
    if prop == "paint-order":
        if low == "normal":
            return ["s", "normal"]
        parts = low.split()
        if not parts or len(set(parts)) != len(parts) or set(parts) - {"fill", "stroke", "markers"}:
            return None
        parts += [x for x in ("fill", "stroke", "markers") if x not in parts]
        return ["s", "normal" if parts == ["fill", "stroke", "markers"] else " ".join(parts)]
    if prop == "font-family":
        return ["s", re.sub(r"""["']""", "", re.sub(r"\s*,\s*", ",", low))] if low else None
    if prop == "font-weight":
        return ["s", {"normal": "400", "bold": "700"}.get(low, low)]
    return ["s", re.sub(r"\s+", " ", low)] if low else None


# ------------------------------------------------------------ CSS
def strip_comments(css):
    return re.sub(r"/\*.*?\*/", "", css, flags=re.S)


def split_top(s, seps):
    """Splits at separators outside brackets and strings."""
    out, depth, quote, cur, i = [], 0, "", "", 0
    while i < len(s):
        ch = s[i]
        if quote:
            cur += ch
            if ch == "\\" and i + 1 < len(s):
                i += 1
                cur += s[i]
            elif ch == quote:
                quote = ""
        elif ch in "\"'":
            quote = ch
            cur += ch
        elif ch in "([{":
            depth += 1
            cur += ch
        elif ch in ")]}":
            depth -= 1
            cur += ch
        elif ch in seps and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    out.append(cur)
    return out


def declarations(css):
    out = []
    for d in split_top(strip_comments(css), ";"):
        if ":" not in d:
            continue
        p, v = d.split(":", 1)
        p = p.strip()
        p = p if p.startswith("--") else p.lower()
        imp = False
        m = re.search(r"!\s*important\s*$", v, flags=re.I)
        if m:
            imp, v = True, v[:m.start()]
        v = v.strip()
        if p == "marker":
            for q in ("marker-start", "marker-mid", "marker-end"):
                out.append([q, v, imp])
            continue
        out.append([p, v, imp])
    return out


def css_ident(s):
    def un(m):
        h = m.group(1)
        return chr(int(h.strip(), 16)) if re.match(r"[0-9a-fA-F]", h) else h
    return re.sub(r"\\([0-9a-fA-F]{1,6}\s?|.)", un, s)


IDENT = r"(?:\\[0-9a-fA-F]{1,6}\s?|\\.|[-_a-zA-Z0-9\u0080-\U0010ffff])+"


def nth(s):
    """an+b as [a, b]; None when malformed."""
    s = re.sub(r"\s+", "", s.lower())
    if s in ("even", "odd"):
        return [2, 0 if s == "even" else 1]
    m = re.fullmatch(r"([+-]?\d*)n([+-]\d+)?", s)
    if m:
        a = m.group(1)
        return [int(a + "1") if a in ("", "+", "-") else int(a), int(m.group(2) or 0)]
    return [0, int(s)] if re.fullmatch(r"[+-]?\d+", s) else None


def selector(s):
    """A complex selector, rightmost compound first: [{comb, parts: [[kind, a, b]]}].  None if not understood."""
    s = s.strip()
    pos = 0
    comps = []
    comb = ""
    while pos < len(s):
        m = re.compile(r"\s*([>+~])\s*|\s+").match(s, pos)
        if m and comps:
            comb = m.group(1) or " "
            pos = m.end()
            continue
        parts = []
        while pos < len(s):
            rest = s[pos:]
            m = re.match(r"\*", rest)
            if m:
                parts.append(["any", "", ""])
                pos += 1
                continue
            m = re.match(r"#(" + IDENT + ")", rest)
            if m:
                parts.append(["id", css_ident(m.group(1)), ""])
                pos += m.end()
                continue
            m = re.match(r"\.(" + IDENT + ")", rest)
            if m:
                parts.append(["class", css_ident(m.group(1)), ""])
                pos += m.end()
                continue
            m = re.match(r"""\[\s*([\w:-]+)\s*(?:([~|^$*]?=)\s*("[^"]*"|'[^']*'|[^\]\s]+)\s*)?\]""", rest)
            if m:
                v = m.group(3) or ""
                if v[:1] in "\"'" and v:
                    v = v[1:-1]
                parts.append(["attr" + (m.group(2) or ""), m.group(1), css_ident(v) if v else ""])
                pos += m.end()
                continue
            m = re.match(r"::?[\w-]+(\([^()]*(\([^()]*\))?[^()]*\))?", rest)
            if m:
                t = m.group(0)
                n = re.match(r":(not|is|where)\((.*)\)$", t)
                if n:
                    inner = [selector(x) for x in split_top(n.group(2), ",")]
                    if None in inner:
                        return None
                    parts.append([n.group(1), "", "", inner])
                else:
                    m2 = re.match(r":nth-((?:last-)?(?:child|of-type))\(\s*(.*?)\s*\)$", t)
                    v = nth(m2.group(2)) if m2 else None
                    if m2 and v is None:
                        return None
                    parts.append(["nth", m2.group(1), "", [], v] if m2 else ["pseudo", t, ""])
                pos += m.end()
                continue
            m = re.match(IDENT, rest)
            if m:
                parts.append(["type", css_ident(m.group(0)), ""])
                pos += m.end()
                continue
            break
        if not parts:
            return None
        comps.append([comb, parts])
        comb = ""
    if not comps:
        return None
    # [{comb, parts}] rightmost first; comb is the combinator between this compound and the one left of it
    out = []
    for i in range(len(comps) - 1, -1, -1):
        out.append({"comb": comps[i][0] if i > 0 else "", "parts": [{"k": q[0], "a": q[1], "b": q[2], "in": q[3] if len(q) > 3 else [], "v": q[4] if len(q) > 4 else []} for q in comps[i][1]]})
    return out


def stylesheet(css, cond=""):
    """[{sel, decls, cond}] in order, and the at-rules that are not understood."""
    css = strip_comments(css).replace("<!--", "").replace("-->", "")
    rules, other = [], []
    i = 0
    while True:
        m = re.compile(r"\s*").match(css, i)
        i = m.end()
        if i >= len(css):
            break
        # prelude up to { or ;
        j, quote = i, ""
        while j < len(css):
            ch = css[j]
            if quote:
                quote = "" if ch == quote else quote
            elif ch in "\"'":
                quote = ch
            elif ch in "{;":
                break
            j += 1
        prelude = css[i:j].strip()
        if j >= len(css) or css[j] == ";":
            if prelude:
                other.append(re.sub(r"\s+", " ", prelude))
            i = j + 1
            continue
        depth, k, quote = 1, j + 1, ""
        while k < len(css) and depth:
            ch = css[k]
            if quote:
                quote = "" if ch == quote else quote
            elif ch in "\"'":
                quote = ch
            elif ch == "{":
                depth += 1
            elif ch == "}":
                depth -= 1
            k += 1
        body = css[j + 1:k - 1] if depth == 0 else css[j + 1:k]
        i = k
        if prelude.startswith("@"):
            m = re.match(r"@(media|supports)\b\s*(.*)$", prelude, flags=re.S)
            if m:
                q = norm_media(m.group(2))
                c = "@%s %s" % (m.group(1), q)
                if m.group(1) == "media" and q in ("", "all"):
                    c = ""
                r, o = stylesheet(body, (cond + " " + c).strip())
                rules += r
                other += o
            else:
                other.append(re.sub(r"\s+", "", prelude + "{" + body + "}").replace('"', "'"))
            continue
        sels = [selector(x) for x in split_top(prelude, ",")]
        decls = declarations(body)
        if any(x is None for x in sels):
            continue
        for sel in sels:
            rules.append({"sel": sel, "decls": decls, "cond": cond})
    return rules, other


def norm_media(q):
    return re.sub(r"\s*([:(),])\s*", r"\1", re.sub(r"\s+", " ", q.strip().lower()))


def model_decls(decls):
    out = []
    for p, v, imp in decls:
        if p in PROPERTIES:
            mv = value(p, v)
            if mv is not None:
                out.append({"p": p, "v": mv, "i": imp})
        elif p == "transform":
            out.append({"p": p, "v": ["s", re.sub(r"\s+", "", v.lower())], "i": imp})
        elif p.startswith("--") or p:
            out.append({"p": p, "v": ["s", re.sub(r"\s+", " ", v)], "i": imp})
    return out


# -------------------------------------------------- transforms and paths
def transform(s):
    """A list of [name, numbers]; None when malformed."""
    out = []
    pos = 0
    pat = re.compile(r"[\s,]*(matrix|translate|scale|rotate|skewX|skewY)\s*\(([^()]*)\)[\s,]*")
    while pos < len(s.rstrip()):
        m = pat.match(s, pos)
        if not m:
            return None
        args = [float(x) for x in NUMRE.findall(m.group(2))]
        left = re.sub(NUMRE, "", m.group(2))
        if left.strip(" \t\r\n,"):
            return None
        ok = {"matrix": (6,), "translate": (1, 2), "scale": (1, 2), "rotate": (1, 3), "skewX": (1,), "skewY": (1,)}[m.group(1)]
        if len(args) not in ok:
            return None
        out.append([m.group(1), args])
        pos = m.end()
    return out


def transform_model(s, scale=GEO):
    """[{f, v}] with numbers scaled (scale factors by NUM)."""
    t = transform(s)
    if t is None:
        return None
    out = []
    for f, v in t:
        if f == "matrix":
            v = [rnd(x, NUM) for x in v[:4]] + [rnd(x, scale) for x in v[4:]]
        elif f == "translate":
            v = [rnd(v[0], scale), rnd(v[1], scale) if len(v) > 1 else 0]
        elif f == "scale":
            v = [rnd(v[0], NUM), rnd(v[1] if len(v) > 1 else v[0], NUM)]
        elif f == "rotate":
            import math
            a = v[0] % 360
            co, si = math.cos(math.radians(a)), math.sin(math.radians(a))
            v = [rnd(co, NUM), rnd(si, NUM)] + [rnd(x, scale) for x in (v[1:] or [0, 0])]
        else:
            import math
            v = [rnd(math.tan(math.radians(v[0])), NUM)]
        out.append({"f": f, "v": v})
    return out


ARGS = {"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2, "A": 7, "Z": 0}


def path(s):
    """[[command, numbers...]] up to the first error (as the format prescribes)."""
    out = []
    pos = 0
    cmd = None
    s = s.strip()
    sep = re.compile(r"[\s,]*")
    while True:
        pos = sep.match(s, pos).end()
        if pos >= len(s):
            break
        if s[pos].isalpha() and s[pos] not in "eE":
            cmd = s[pos]
            if cmd.upper() not in ARGS:
                break
            pos += 1
            if not out and cmd not in "Mm":
                break
            if cmd in "Zz":
                out.append(["Z"])
                cmd = None
                continue
        elif cmd is None:
            break
        args = []
        for k in range(ARGS[cmd.upper()]):
            pos = sep.match(s, pos).end()
            if cmd in "Aa" and k in (3, 4):
                if pos < len(s) and s[pos] in "01":
                    args.append(float(s[pos]))
                    pos += 1
                    continue
                break
            m = NUMRE.match(s, pos)
            if not m:
                break
            args.append(float(m.group(0)))
            pos = m.end()
        if len(args) < ARGS[cmd.upper()]:
            break
        out.append([cmd] + args)
        if cmd == "M":
            cmd = "L"
        elif cmd == "m":
            cmd = "l"
    return out


def path_model(s, scale=GEO):
    """Commands with absolute positions; every coordinate is rounded once, from the exact sum.
    H and V become L; smooth shorthands get their control point; flags and radii are kept."""
    out = []
    x = y = sx = sy = 0.0
    prev, cx, cy = "", 0.0, 0.0
    for c in path(s):
        k, a = c[0], c[1:]
        rel = k.islower()
        K = k.upper()
        bx, by = (x, y) if rel else (0.0, 0.0)
        r = lambda v: rnd(v, scale)
        if K == "Z":
            out.append({"c": "Z", "v": []})
            x, y = sx, sy
        elif K == "M":
            x, y = bx + a[0], by + a[1]
            sx, sy = x, y
            out.append({"c": "M", "v": [r(x), r(y)]})
        elif K in "LHV":
            if K == "L":
                x, y = bx + a[0], by + a[1]
            elif K == "H":
                x = bx + a[0]
            else:
                y = by + a[0]
            out.append({"c": "L", "v": [r(x), r(y)]})
        elif K in "CS":
            if K == "S":
                x1, y1 = (2 * x - cx, 2 * y - cy) if prev in "CS" and prev else (x, y)
                a = [x1 - bx, y1 - by] + a
            p = [bx + a[0], by + a[1], bx + a[2], by + a[3], bx + a[4], by + a[5]]
            out.append({"c": "C", "v": [r(v) for v in p]})
            cx, cy, x, y = p[2], p[3], p[4], p[5]
        elif K in "QT":
            if K == "T":
                x1, y1 = (2 * x - cx, 2 * y - cy) if prev in "QT" and prev else (x, y)
                a = [x1 - bx, y1 - by] + a
            p = [bx + a[0], by + a[1], bx + a[2], by + a[3]]
            out.append({"c": "Q", "v": [r(v) for v in p]})
            cx, cy, x, y = p
        elif K == "A":
            rx, ry, large = abs(a[0]), abs(a[1]), int(a[3])
            if rx and ry:  # radii that do not reach are scaled up; a half turn is neither large nor small
                import math
                co, si = math.cos(math.radians(a[2])), math.sin(math.radians(a[2]))
                dx, dy = (x - bx - a[5]) / 2, (y - by - a[6]) / 2
                reach = math.hypot((co * dx + si * dy) / rx, (co * dy - si * dx) / ry)
                if reach > 0.9999:
                    rx, ry, large = rx * reach, ry * reach, 0
            x, y = bx + a[5], by + a[6]
            turn = rnd(a[2], 1) % 180
            if turn == 90:
                rx, ry, turn = ry, rx, 0
            out.append({"c": "A", "v": [r(rx), r(ry), 0 if r(rx) == r(ry) else turn, large, int(a[4]), r(x), r(y)]})
        prev = K
    return out


def points(s, scale=GEO):
    v = [float(x) for x in NUMRE.findall(s)]
    v = v[:len(v) // 2 * 2]
    return [rnd(x, scale) for x in v]


# --------------------------------------------------------------- shapes
def shape(n, at, scale=GEO):
    """Geometry of a basic shape in model form, from its attributes {name: text}."""
    def num(k, d=0.0):
        if k not in at:
            return d
        v = length(at[k])
        return None if v is None else v
    raw = {"t": "raw", "v": [], "c": [], "s": n + " " + " ".join("%s=%s" % (k, at[k]) for k in sorted(at) if k in (
        "x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "x2", "y1", "y2", "points", "d"))}

    def ok(t, vs):
        if None in vs:
            return raw
        return {"t": t, "v": [rnd(v, scale) for v in vs], "c": [], "s": ""}
    if n == "path":
        return {"t": "path", "v": [], "c": path_model(at.get("d", ""), scale), "s": ""}
    if n == "rect":
        rx, ry = num("rx", -1.0), num("ry", -1.0)
        if rx is not None and ry is not None:
            if "rx" not in at or at["rx"].strip() == "auto":
                rx = ry
            if "ry" not in at or at["ry"].strip() == "auto":
                ry = rx
            w, h = num("width"), num("height")
            if w is not None and h is not None:
                rx, ry = min(max(rx, 0.0), w / 2), min(max(ry, 0.0), h / 2)
        return ok("rect", [num("x"), num("y"), num("width"), num("height"), rx, ry])
    if n == "circle":
        return ok("ellipse", [num("cx"), num("cy"), num("r"), num("r")])
    if n == "ellipse":
        rx, ry = num("rx", -1.0), num("ry", -1.0)
        if "rx" not in at or at["rx"].strip() == "auto":
            rx = ry
        if "ry" not in at or at["ry"].strip() == "auto":
            ry = rx
        return ok("ellipse", [num("cx"), num("cy"), max(rx, 0.0) if rx is not None else None, max(ry, 0.0) if ry is not None else None])
    if n == "line":
        return ok("line", [num("x1"), num("y1"), num("x2"), num("y2")])
    if n in ("polyline", "polygon"):
        return {"t": n, "v": points(at.get("points", ""), scale), "c": [], "s": ""}
    return {"t": "none", "v": [], "c": [], "s": ""}


SHAPES = {"path", "rect", "circle", "ellipse", "line", "polyline", "polygon"}
NUMATTR = {"x", "y", "width", "height", "x1", "y1", "x2", "y2", "cx", "cy", "r", "fx", "fy", "offset", "refX", "refY",
           "markerWidth", "markerHeight", "stdDeviation", "dx", "dy", "viewBox", "startOffset", "textLength", "k1", "k2", "k3", "k4", "fr"}


def attr_text(s):
    """An attribute value without insignificant detail: blanks collapsed, numbers canonical."""
    s = re.sub(r"\s+", " ", s.strip())

    def n(m):
        v = float(m.group(0))
        return ("%.3f" % v).rstrip("0").rstrip(".").replace("-0", "-0") if v else "0"
    if re.fullmatch(r"(%s\s*(px|%%)?[\s,]*)+" % NUMRE.pattern, s):
        s = re.sub(r"px\b", "", s)
        return " ".join(x if x.endswith("%") else re.sub(NUMRE, n, x) for x in re.findall(NUMRE.pattern + "%?", s))
    return s


def ref(s):
    return unescape_id(s.strip()[1:]) if s.strip().startswith("#") else ""


def runs(nodes, i, top=True):
    """The characters of a text element and the tags between them, white space as it is shown."""
    out = []
    for k in nodes[i - 1]["kids"]:
        n = nodes[k - 1]
        if n["k"] == "t":
            out.append("\1" + n["t"])
        elif n["k"] == "e" and n["n"] not in ("title", "desc", "metadata", "set", "animate"):
            out.append("<%s %s>" % (n["n"], " ".join("%s=%s" % (a[1], attr_text(a[2])) for a in sorted(n["at"]) if a[1] not in ("space",))))
            out += runs(nodes, k, False)
            out.append("</>")
    if not top:
        return out
    keep = any(a[0] == XMLNS and a[1] == "space" and a[2] == "preserve" for a in nodes[i - 1]["at"])
    res, space = [], True
    for x in out:
        if not x.startswith("\1"):
            res.append(x)
            continue
        t = x[1:]
        if keep:
            t = re.sub(r"[\t\r\n]", " ", t)
        else:
            t = re.sub(r"\s+", " ", t)
            if space:
                t = t.lstrip(" ")
            space = t.endswith(" ") if t else space
        if t:
            res.append(t)
    if not keep:
        for j in range(len(res) - 1, -1, -1):
            if not res[j].startswith("<"):
                res[j] = res[j].rstrip(" ")
                break
    return [x for x in res if x]


def read(text, scale=GEO):
    """The document in the vocabulary of spec/Svg.tla."""
    nodes = read_xml(text)
    out = []
    rules, other = [], []
    for i, n in enumerate(nodes, 1):
        if n["k"] == "e":
            svgns = n["ns"] == SVG
            at = {}
            for ns, a, v, px in n["at"]:
                if ns == "":
                    at[a] = v
                elif ns == XLINK:
                    at["xlink:" + a] = v
                elif ns == XMLNS:
                    at["xml:" + a] = v
                else:
                    at["{%s}%s" % (ns, a)] = v
            pres = {}
            for a, v in at.items():
                if a in PROPERTIES and a not in CSS_ONLY:
                    mv = value(a, v)
                    if mv is not None:
                        pres[a] = mv
            name = n["n"] if svgns else "{%s}%s" % (n["ns"], n["n"])
            tf = []
            tfname = {"linearGradient": "gradientTransform", "radialGradient": "gradientTransform", "pattern": "patternTransform"}.get(name, "transform")
            if tfname in at:
                tf = transform_model(at[tfname], scale) or []
            href = at.get("href", at.get("xlink:href", ""))
            rest = {a: attr_text(v) for a, v in at.items()
                    if a not in PROPERTIES and a not in ("style", "class", "id", "transform", "gradientTransform", "patternTransform", "href", "xlink:href", "d", "points")
                    and not (name in SHAPES and a in ("x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "x2", "y1", "y2"))}
            out.append({
                "k": "e", "n": name, "par": n["par"], "kids": n["kids"], "t": "",
                "id": at.get("id", ""), "cls": at.get("class", "").split(),
                "pres": pres, "inl": model_decls(declarations(at.get("style", ""))),
                "tf": tf, "geo": shape(name, at, scale) if name in SHAPES else {"t": "none", "v": [], "c": [], "s": ""},
                "href": ref(href), "ext": "" if href.strip().startswith("#") else href.strip(), "rest": rest,
                "raw": at, "anim": [],
                "at": [rnd(length(at.get(k, "0")) or 0.0, scale) for k in ("x", "y")] if name == "use" else [0, 0],
                "runs": runs(nodes, i) if name == "text" else [],
            })
            if name == "style":
                css = "".join(nodes[k - 1]["t"] for k in n["kids"] if nodes[k - 1]["k"] == "t")
                m = norm_media(at.get("media", ""))
                ty = at.get("type", "").strip()
                if ty in ("", "text/css"):
                    r, o = stylesheet(css, "" if m in ("", "all") else "@media " + m)
                    rules += r
                    other += o
        else:
            out.append({"k": n["k"], "n": n["n"], "par": n["par"], "kids": n["kids"], "t": n["t"]})
    for n in out:  # declarations that hold while animations run
        if n["k"] == "e" and n["n"] in ("set", "animate") and not n["href"] and out[n["par"] - 1]["k"] == "e":
            p = n["raw"].get("attributeName", "").strip()
            v = value(p, n["raw"].get("to", "")) if p in PROPERTIES else None
            if v is not None:
                out[n["par"] - 1]["anim"].append({"p": p, "v": v})
    for r in rules:
        r["decls"] = model_decls(r["decls"])
    return {"nodes": out, "rules": rules, "other": other}
