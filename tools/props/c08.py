"""C08: what actions do to the drawing (spec/Actions.tla, GenAct.tla, ActTrace.tla)."""
import lib
import optrun
import session


def run(c):
    (drv,) = lib.build_driver("h_act")
    session.canaries(c, drv)
    wide, deep, long = session.cases(c)
    cases = wide + optrun.sample(deep, 40000 if c.thorough else 5000, c.seed) + optrun.sample(long, 6000 if c.thorough else 1200, c.seed)
    c.sample(session.describe(long[0], 99))
    session.judge(c, drv, cases, {"drawing", "selection", "answer"})
    c.assumptions += ["documents without white space between elements: ids of elements count nodes"]
