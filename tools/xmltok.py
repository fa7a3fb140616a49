"""A plain reading of XML text by qualified names: nothing is resolved, attribute order and
declarations are kept.  Independent of the implementation and of expat."""
import re


class Bad(Exception):
    pass


TAG = re.compile(r"""<([^\s/>]+)((?:\s+[^\s=/>]+\s*=\s*(?:"[^"]*"|'[^']*'))*)\s*(/?)>""")
ATTR = re.compile(r"""([^\s=]+)\s*=\s*(?:"([^"]*)"|'([^']*)')""")
NAMED = {"lt": "<", "gt": ">", "amp": "&", "quot": '"', "apos": "'"}


def decode(s):
    def one(m):
        x = m.group(1)
        if x.startswith("#x"):
            return chr(int(x[2:], 16))
        if x.startswith("#"):
            return chr(int(x[1:]))
        if x not in NAMED:
            raise Bad("entity " + x)
        return NAMED[x]
    return re.sub(r"&([^;&\s]+);", one, s)


def read(text):
    """Nodes in document order, 1 is the document."""
    nodes = [{"k": "d", "n": "", "at": [], "t": "", "par": 0, "kids": []}]
    stack = [1]

    def add(k, **kw):
        n = {"k": k, "n": "", "at": [], "t": "", "par": stack[-1], "kids": []}
        n.update(kw)
        nodes.append(n)
        nodes[stack[-1] - 1]["kids"].append(len(nodes))
        return len(nodes)

    def chars(s):
        kids = nodes[stack[-1] - 1]["kids"]
        if not s or (len(stack) == 1 and not s.strip()):
            return
        if kids and nodes[kids[-1] - 1]["k"] == "t":
            nodes[kids[-1] - 1]["t"] += s
        else:
            add("t", t=s)

    i = 0
    while i < len(text):
        if text.startswith("<!--", i):
            j = text.find("-->", i)
            if j < 0:
                raise Bad("open comment")
            add("c", t=text[i + 4:j])
            i = j + 3
        elif text.startswith("<![CDATA[", i):
            j = text.find("]]>", i)
            if j < 0:
                raise Bad("open cdata")
            chars(text[i + 9:j])
            i = j + 3
        elif text.startswith("<?", i):
            j = text.find("?>", i)
            if j < 0:
                raise Bad("open instruction")
            m = re.match(r"(\S+)\s*(.*)$", text[i + 2:j], flags=re.S)
            add("p", n=m.group(1), t=m.group(2).strip())
            i = j + 2
        elif text.startswith("<!DOCTYPE", i):
            depth, j = 0, i
            while j < len(text):
                depth += {"[": 1, "]": -1}.get(text[j], 0)
                if text[j] == ">" and depth == 0:
                    break
                j += 1
            add("y", t=re.sub(r"\s+", " ", text[i + 9:j].strip()))
            i = j + 1
        elif text.startswith("</", i):
            j = text.find(">", i)
            name = text[i + 2:j].strip()
            if len(stack) < 2 or nodes[stack[-1] - 1]["n"] != name:
                raise Bad("end tag " + name)
            stack.pop()
            i = j + 1
        elif text[i] == "<":
            m = TAG.match(text, i)
            if not m:
                raise Bad("tag at %r" % text[i:i + 40])
            at = [[a.group(1), decode(re.sub(r"[\t\n\r]", " ", a.group(2) if a.group(2) is not None else a.group(3)))] for a in ATTR.finditer(m.group(2))]
            if len({a for a, _ in at}) != len(at):
                raise Bad("repeated attribute in " + m.group(0))
            e = add("e", n=m.group(1), at=at)
            if not m.group(3):
                stack.append(e)
            i = m.end()
        else:
            j = text.find("<", i)
            j = len(text) if j < 0 else j
            chars(decode(text[i:j]))
            i = j
    if len(stack) != 1:
        raise Bad("unclosed element")
    return nodes
