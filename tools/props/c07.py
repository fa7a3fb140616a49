"""C07: history, selection, saving and forgetting (spec/Actions.tla, GenAct.tla, ActTrace.tla)."""
import lib
import optrun
import session


def node(name, p, t=""):
    return {"n": name, "p": p, "t": t, "at": {}, "cls": [], "sty": [], "tr": []}


# document outside the generated space that is listed as a known finding
NOTED = [node("svg", 0), node("#text", 1, " "), node("g", 1), node("#text", 1, " "), node("rect", 1)]


def run(c):
    (drv,) = lib.build_driver("h_act")
    session.canaries(c, drv)
    wide, deep, long = session.cases(c)
    deep = [x for x in deep if any(a[0] in ("save", "keep", "snapshot", "forget", "insert") for a in x["steps"])]
    cases = wide + optrun.sample(deep, 40000 if c.thorough else 5000, c.seed) + optrun.sample(long, 6000 if c.thorough else 1200, c.seed)
    c.sample(session.describe(long[0], 99))
    session.judge(c, drv, cases, {"history", "selection", "deriving", "trace", "answer", "drawing"})
    c.assumptions += ["documents without white space between elements: ids of elements count nodes"]
    noted(c, drv)


def noted(c, drv):
    cases = [{"doc": NOTED, "steps": [["select", "g"], how, ["class", "n"]]} for how in (["snapshot"], ["save"])]
    r = c.drive(drv, [{"svg": session.write(x["doc"]), "steps": [session.action(a) for a in x["steps"]]} for x in cases], "noted")
    here, again = [session.observe(x, y)[-1]["doc"] for x, y in zip(cases, r)]
    if here != again:
        c.violation("reload-with-white-space", "another element is selected after saving and reading: %s" % session.describe(cases[1], 99), {"memory": here, "reloaded": again})
