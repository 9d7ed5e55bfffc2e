"""Solvers recover from transient faults in the function."""

import numpy as np

from .. import catalog, common, evaluator as ev, stepper
from ..harness import Outcome


ID = "C05"
CELLS = dict(quick=60, thorough=480)
MUST = (
    "a burst hit a trial before the solution was near",
    "a burst hit consecutive trials",
    "several bursts in one run",
    "recovered",
    "took more steps than without faults",
)
RULE = (
    "A run is one solver with a search on a problem with a single solution, solved without faults and "
    "again with bursts of unusable answers. Distinct: different configuration, or different (faults "
    "delivered by request, step count). Non-trivial: at least one fault was delivered."
)
REAL = ["optimistix solvers, descents, searches, loop and entry points", "equinox loops", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
ORDER = ("qn", "gn", "gd", "gn", "qn")
KINDS = ("nan", "vnan", "inf", "leafnan", "high")
FAMILIES = dict(qn="quad", gd="quad", gn="mild")
LIMIT = 3000


def longest(spec):
    """The most unusable answers in one run. Backtracking starts afresh with every
    accepted step; a trust region may stay as small as it was made."""
    kind, kw = catalog.components(spec)[0]
    if kind == "armijo":
        return max(1, int(np.log(1e-2) / np.log(kw.get("decrease_factor", 0.5))))
    return max(1, int(np.log(0.05) / np.log(kw.get("low_constant", 0.25))))


def first_order(spec):
    return catalog.components(spec)[1][0] in ("steepest", "ncg")


def near(spec):
    """How close a reported solution has to be. Methods which see only gradients stop
    once their steps are short, at a distance which depends on the conditioning."""
    return 0.05 if first_order(spec) else 1e-2


def bound(spec, n0, k):
    """Most steps a run with `k` unusable answers may take."""
    if first_order(spec) or spec["name"] == "DFP":
        return 25 * n0 + 20 * k + 500
    if catalog.components(spec)[0][0] == "armijo":
        return 4 * n0 + 15 * k + 50
    # At a step size of 0.05, a digit takes 45 steps.
    return 6 * n0 + 400


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    while True:
        out = catalog.pick_cell(rng, group)
        spec = out["solver"]
        kind, kw = catalog.components(spec)[0]
        descent, dkw = catalog.components(spec)[1]
        fragile = dkw.get("method") == "hs"
        # A Newton step times a trust region's radius oscillates if the radius is large.
        fragile |= kind == "classtr" and descent == "newton"
        # Steps of a length that is given, not found.
        fragile |= descent == "newton" and "norm" in dkw
        if kind == "lr" or fragile or (first_order(spec) and kind != "armijo"):
            continue
        break
    if kind == "lintr":
        # A convex function never lives up to a linear prediction, so that with the
        # usual cutoff the region would not grow again once it has shrunk.
        kw["high_cutoff"] = rng.choice([0.5, 0.6, 0.75])
    elif kind == "classtr" and "high_cutoff" in kw:
        kw["high_cutoff"] = min(kw["high_cutoff"], 0.9)
    # A loss cannot be resolved more finely than to half the digits of its argument.
    tols = [[1e-7, 1e-7], [1e-8, 1e-8], [1e-9, 1e-7]] if group == "gn" else [[1e-5, 1e-6], [1e-6, 1e-6]]
    spec["rtol"], spec["atol"] = rng.choice(tols)
    if rng.random() < 0.15:
        out = catalog.wrap_best(out)
    out["runs"] = 24
    return out


def gen(cell, rng):
    spec = cell["solver"].get("inner", cell["solver"])
    plan = catalog.pick_problem(rng, cell, at_end=0.0)
    plan["family"] = FAMILIES[cell["group"]]
    # Off the decimal grid: a step of round length which lands exactly on the solution
    # can never be improved upon, nor the solve then stop, faults or not.
    plan["y0"] = [round(y + rng.uniform(-1e-3, 1e-3), 9) for y in plan["y0"]]
    plan["quartic"] = rng.choice([0.0, 0.1, 0.3, 1.0])
    kinds = rng.sample(KINDS, rng.choice([1, 1, 2, 5]))
    at = set()
    left = longest(spec)
    for _ in range(rng.choice([1, 1, 2, 3])):
        if left <= 0:
            break
        size = min(left, rng.choice([1, 1, 2, 3, 5]))
        left -= size
        start = 1 + rng.choice([0, 1, 2, 4, rng.randrange(12), rng.randrange(30)])
        at.update(range(start, start + size))
    plan["events"] = [["fault", k, rng.choice(kinds), common.r3(rng.random())] for k in sorted(at)]
    return plan


def shrink(cell, plan):
    return (p for p in common.shrink_plan(cell, plan) if p["y0"] == plan["y0"])


def session(cell, plan, **kw):
    s = common.session(cell, plan, **kw)
    # Zero at the solution, where even tiny differences can then be told apart.
    s.problem.off = 0.0
    s.problem.q = plan["quartic"]
    return s


def run(cell, plan):
    out = Outcome()
    spec = cell["solver"].get("inner", cell["solver"])
    d = stepper.driver(cell)
    s0 = session(cell, plan, faults={})
    ref = d.solve(s0, plan, LIMIT)
    out.log(s0)
    want = s0.problem.solution
    code0, n0 = stepper.code(ref.result), int(ref.stats["num_steps"])
    off0 = float(np.max(np.abs(ev.flat(ref.value) - want)))
    s = session(cell, plan)
    sol = d.solve(s, plan, LIMIT)
    out.log(s)
    code, n = stepper.code(sol.result), int(sol.stats["num_steps"])
    got = ev.flat(sol.value)
    off = float(np.max(np.abs(got - want)))
    out.feed(code, n, got)
    out.steps = n
    fired = [e.tok for e in s.log if e.fault]
    out.history = repr((cell["solver"], cell["n"], [(e.tok, e.fault) for e in s.log if e.fault], n))
    out.trivial = not fired
    if code0 != "successful" or off0 > near(spec) / 2:
        out.trivial = True
        out.probe("not solved without faults either")
        return out
    if not fired:
        return out
    first = s.log[fired[0]]
    if np.max(np.abs(first.y - want)) > 0.05:
        out.probe("a burst hit a trial before the solution was near")
    if any(b == a + 1 for a, b in zip(fired, fired[1:])):
        out.probe("a burst hit consecutive trials")
    if any(b > a + 1 for a, b in zip(fired, fired[1:])):
        out.probe("several bursts in one run")
    if n > n0:
        out.probe("took more steps than without faults")
    allowed = bound(spec, n0, len(fired))
    who = f"{len(fired)} unusable answers from request {fired[0]} on"
    if code != "successful":
        out.bad("lost", f"{who}: {code} after {n} steps at {got}; {n0} steps to {want} without")
    elif off > near(spec):
        out.bad("wrong", f"{who}: success reported at {got}, solution is {want}")
    elif n > allowed:
        out.bad("slow", f"{who}: {n} steps, at most {allowed} expected; {n0} without")
    else:
        out.probe("recovered")
    return out

