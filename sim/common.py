"""What the property modules share: random plans, sessions, and judging a stepped run."""

import numpy as np

from . import catalog, evaluator as ev, models, stepper
from .harness import Outcome
from .problems import Problem


GROUPS = ("qn", "gd", "gn", "root", "bisect", "golden", "fp", "optax")
ACCEPT_REJECT = ("qn", "gd", "gn")

STUB_EVALUATOR = "user function: host-side evaluator with fault plan (sim/evaluator.py)"
STUB_PROBLEM = "problem families and derivatives in NumPy (sim/problems.py)"


def r3(x):
    return round(float(x), 3)


def gen_faults(rng, horizon=40, kinds=ev.VALUE_FAULTS, lo=0, clean=0.15):
    """A fault plan. Each run first draws which kinds of fault exist in its world and how
    they cluster, then the faults."""
    if rng.random() < clean:
        return []
    kinds = rng.sample(list(kinds), min(len(kinds), rng.choice([1, 1, 2, 3, 5])))
    mode = rng.choice(["single", "sparse", "dense", "burst", "bursts", "tail", "few"])
    at = []
    if mode == "single":
        at = [rng.randrange(lo, lo + min(20, horizon))]
    elif mode == "few":
        at = rng.sample(range(lo, lo + horizon), min(horizon, rng.choice([2, 3, 4])))
    elif mode in ("sparse", "dense"):
        p = rng.choice([0.05, 0.1, 0.2]) if mode == "sparse" else rng.uniform(0.3, 0.6)
        at = [k for k in range(lo, lo + horizon) if rng.random() < p]
    elif mode in ("burst", "bursts"):
        for _ in range(1 if mode == "burst" else rng.choice([2, 3])):
            start = rng.randrange(lo, lo + horizon)
            at += range(start, start + rng.choice([1, 2, 3, 5, 8]))
    else:
        start = rng.randrange(lo, lo + min(15, horizon))
        at = range(start, start + 60)
    return [["fault", k, rng.choice(kinds), r3(rng.random())] for k in sorted(set(at))]


def gen_plan(cell, rng, horizon=40, kinds=ev.VALUE_FAULTS, clean=0.15, holes=0.15, at_end=0.1):
    """Problem, start, bounds and faults for one run of a cell."""
    spec = cell["solver"].get("inner", cell["solver"])
    plan = catalog.pick_problem(rng, cell, at_end)
    n = cell["n"]
    lo = 0
    if cell["group"] in ("bisect", "golden"):
        plan["lower"] = [r3(rng.uniform(-7, -2.05))]
        plan["upper"] = [r3(rng.uniform(2.05, 7))]
        if spec.get("expand"):
            if rng.random() < 0.5:
                # The root is elsewhere; expansion has to find it.
                a = rng.choice([rng.uniform(2.1, 5), rng.uniform(-8, -5)])
                plan["lower"], plan["upper"] = [r3(a)], [r3(a + rng.uniform(0.5, 3))]
            lo = 12
        plan["y0"] = [r3(rng.uniform(plan["lower"][0] + 0.01, plan["upper"][0] - 0.01))]
    if spec["name"] == "Bisection" and spec["flip"] != "detect":
        plan["sign"] = -1.0 if spec["flip"] else 1.0
    box = spec.get("box")
    # A tight box may well not contain the solution.
    mid = (lambda y: y) if box and rng.random() < 0.4 else (lambda y: 0.0)
    if box in ("both", "lower"):
        plan["lower"] = [r3(min(y, mid(y)) - rng.choice([0.0, 0.3, 2.0])) for y in plan["y0"]]
    if box in ("both", "upper"):
        plan["upper"] = [r3(max(y, mid(y)) + rng.choice([0.0, 0.3, 2.0])) for y in plan["y0"]]
    plan["events"] = gen_faults(rng, horizon, kinds, lo, clean)
    if plan["events"] and cell["group"] not in ("bisect",) and rng.random() < holes:
        a = [r3(rng.uniform(-1, 1)) for _ in range(n)]
        at = float(np.dot(a, plan["y0"]))
        plan["hole"] = [a, r3(at + rng.choice([0.05, 0.3, 1.0]))]
    return plan


def faults_of(plan):
    return {k: (kind, p) for tag, k, kind, p in (e for e in plan["events"] if e[0] == "fault")}


def session(cell, plan, faults=None, limit=20000):
    prob = Problem(plan["family"], cell["n"], cell["m"], plan["seed"])
    if "sign" in plan:
        prob.sign = plan["sign"]
    if "off" in plan:
        prob.off = plan["off"]
    return ev.Session(
        prob, faults_of(plan) if faults is None else faults, plan.get("hole"), limit
    )


def shrink_plan(cell, plan):
    if "hole" in plan:
        yield {k: v for k, v in plan.items() if k != "hole"}
    y0 = [float(round(y)) for y in plan["y0"]]
    if y0 != plan["y0"] and cell["group"] not in ("bisect", "golden"):
        yield dict(plan, y0=y0)
    for k in range(len(plan["events"])):
        e = plan["events"][k]
        if e[0] == "fault" and e[3] != 0.5:
            ev2 = plan["events"][:k] + [[e[0], e[1], e[2], 0.5]] + plan["events"][k + 1 :]
            yield dict(plan, events=ev2)


def refused(cell, s):
    """Bisection that was told of no sign change must refuse."""
    spec = cell["solver"].get("inner", cell["solver"])
    if spec["name"] != "Bisection" or spec["flip"] != "detect" or spec["expand"]:
        return False
    if len(s.log) < 2:
        return False
    return (float(s.log[0].v[0]) < 0) == (float(s.log[1].v[0]) < 0)


def indirect_raise(cell, s, e):
    """A known finding of C02: the nested root find of the indirect descent raises if
    the Jacobian at an accepted point is not finite, throwing enabled or not."""
    spec = cell["solver"].get("inner", cell["solver"])
    return (
        spec["name"] == "IndirectLevenbergMarquardt"
        and "linear solver received non-finite" in str(e)
        and any(np.all(np.isfinite(x.v)) and not np.all(np.isfinite(x.J)) for x in s.log)
    )


def attempt(cell, s, out, f):
    """Run `f`; a refusal by bisection is checked and gives None."""
    try:
        res = f()
    except Exception as e:
        if refused(cell, s) and "root is not contained" in str(e):
            out.probe("refused-bracket")
            return None
        if indirect_raise(cell, s, e):
            out.probe("indirect descent raised")
            return None
        raise
    if refused(cell, s):
        out.bad("no-refusal", "bracket without a sign change was not refused")
    return res


def history(out, cell, tr, model=None, extra=""):
    """The stated measure of an interleaving: configuration plus, for every step, what
    happened in it."""
    marks = []
    hist = getattr(model, "history", None)
    for k, st in enumerate(tr.steps):
        a = hist[k] if hist and k < len(hist) else "s"
        f = "".join(sorted({(e.fault or "-") for e in st.entries}))
        marks.append(f"{a}{f}{'T' if st.terminate else ''}{st.code[:4]}")
    out.history = repr((cell["solver"], cell["n"], marks, extra))
    out.steps += len(tr.steps)
    out.trivial = len(tr.steps) == 0


def probes(out, tr, model):
    if getattr(model, "gave_up", False):
        out.probe("reference gave up")
    hist = getattr(model, "history", [])
    if "R" in hist:
        out.probe("a trial was rejected")
        text = "".join(h if h in "AR" else "-" for h in hist)
        if "RRR" in text:
            out.probe("three rejections in a row")
        if "RA" in text:
            out.probe("acceptance after a rejection")
    if any(e.fault for st in tr.steps for e in st.entries):
        out.probe("a fault was delivered during a step")
    if tr.ended == "successful":
        out.probe("run ended in success")
        if any(e.fault for e in tr.entries):
            out.probe("success despite faults")
    elif tr.ended is not None:
        out.probe(f"run ended: {tr.ended}")
    else:
        out.probe("run cut off")


def stepped(cell, plan, max_steps, stop=True, keep_state=False, solver=None):
    """(session, trace or None, outcome) of a run driven by hand."""
    out = Outcome()
    d = stepper.driver(cell) if solver is None else stepper.Driver(cell, solver)
    s = session(cell, plan)
    tr = attempt(
        cell, s, out, lambda: d.run(s, plan, max_steps, stop=stop, keep_state=keep_state)
    )
    out.log(s)
    if tr is not None:
        for st in tr.steps:
            out.feed(st.y_out, st.aux[0], st.terminate, st.code)
    return s, tr, out


def judged(cell, plan, max_steps, stop=True, keep_state=False):
    s, tr, out = stepped(cell, plan, max_steps, stop, keep_state)
    if tr is None:
        out.history = repr((cell["solver"], "refused"))
        return s, tr, out, [], None
    complaints, model = models.judge(cell, plan, tr)
    history(out, cell, tr, model)
    probes(out, tr, model)
    return s, tr, out, complaints, model
