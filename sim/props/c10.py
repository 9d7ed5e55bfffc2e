"""Bounds and brackets are never left."""

import numpy as np

from .. import catalog, common, evaluator as ev, stepper


ID = "C10"
CELLS = dict(quick=60, thorough=500)
MUST = ("clipped at a bound", "a fault was delivered during a step")
RULE = (
    "A run is one bracket or box, problem and plan of adversarial answers, stepped through "
    "the real solver and repeated through the entry point. Distinct: different "
    "configuration or different sequence of (side kept, fault, stop flag, code). "
    "Non-trivial: at least one step was taken."
)
REAL = ["optimistix bisection, golden search, Newton, chord (compiled from /repo)", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
LABELS = ("bracket", "requests", "trial")
STEPS = 60
KINDS = ("bias", "garble", "low", "high", "stale", "nan", "inf", "jzero", "zero", "zero", "ninf")


def cell(rng, i, tier):
    group = ("bisect", "golden", "root")[i % 3]
    out = catalog.pick_cell(rng, group)
    if group == "root":
        out["solver"]["box"] = rng.choice(["both", "both", "lower", "upper"])
    out["runs"] = 30
    return out


def gen(cell, rng):
    return common.gen_plan(cell, rng, horizon=50, kinds=KINDS, clean=0.1, holes=0.1)


shrink = common.shrink_plan


def inside(y, plan):
    lo = np.array(plan.get("lower", [-np.inf] * len(y)))
    hi = np.array(plan.get("upper", [np.inf] * len(y)))
    # A NaN is nowhere.
    return not (np.any(y < lo) or np.any(y > hi))


def run(cell, plan):
    s, tr, out, complaints, model = common.judged(cell, plan, STEPS, stop=False)
    if tr is None:
        return out
    for i, label, msg in complaints:
        if label in LABELS:
            out.bad(label, f"step {i}: {msg}")
    spec = cell["solver"]
    if cell["group"] == "root":
        for st in tr.steps:
            if not inside(st.y_out, plan):
                out.bad("box", f"step {st.i}: iterate {st.y_out} outside the box")
            ends = np.array(plan.get("lower", []) + plan.get("upper", []))
            if np.any(np.isin(st.y_out, ends)):
                out.probe("clipped at a bound")
    elif not spec.get("expand"):
        a, b = plan["lower"][0], plan["upper"][0]
        slack = 1e-12 * (abs(a) + abs(b))
        for e in s.log:
            if not a - slack <= float(e.y[0]) <= b + slack:
                out.bad("request-outside", f"request {e.tok} at {e.y} outside [{a}, {b}]")
                break
        # From the answers alone: the bracket a documented search would hold never
        # grows, and the next point lies in it. (Checked by the model step by step.)
    d = stepper.driver(cell)
    s2 = common.session(cell, plan)
    sol = common.attempt(cell, s2, out, lambda: d.solve(s2, plan, STEPS))
    if sol is None:
        out.bad("solve", "solve refused what stepping accepted")
        return out
    out.log(s2)
    value = ev.flat(sol.value)
    out.feed(value)
    if not spec.get("expand") and not inside(value, plan):
        lo, hi = plan.get("lower"), plan.get("upper")
        if cell["group"] == "root" or not (
            lo[0] - 1e-9 <= value[0] <= hi[0] + 1e-9
        ):
            out.bad("value-outside", f"returned {value} outside {lo}, {hi}")
    return out
