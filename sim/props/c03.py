"""Cutting a solve off anywhere yields an exact prefix."""

import numpy as np

from .. import catalog, common, evaluator as ev, stepper


ID = "C03"
CELLS = dict(quick=84, thorough=560)
MUST = (
    "budget zero",
    "budget one short",
    "budget exactly enough",
    "budget to spare",
    "unlimited",
    "cut in mid-run",
    "more than 256 steps",
    "default budget",
)
RULE = (
    "A run is one solver configuration, problem and fault plan, stepped by hand to its end "
    "and solved again through the entry point with one step budget. Distinct: different "
    "configuration, budget or sequence of (outcome, fault, stop flag, code). Non-trivial: "
    "the budget or the run is not zero steps."
)
REAL = ["optimistix entry points, loop and solvers (compiled from /repo)", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
STEPS = 48
ORDER = ("qn", "gn", "gd", "root", "bisect", "golden", "fp", "nm", "optax", "best", "qn", "gn")
DEFAULT = 256


def cell(rng, i, tier):
    if i % 21 == 20:
        # Hundreds of steps: past the default budget, and any other number that a loop
        # might have been capped at.
        out = catalog.pick_slow(rng)
        out["budgets"] = [None, rng.randrange(260, 480), "default"]
        out["steps"] = 900
        out["runs"] = 6
        return out
    group = ORDER[i % len(ORDER)]
    if group == "best":
        out = catalog.wrap_best(catalog.pick_cell(rng, rng.choice(["qn", "gn", "root", "fp"])))
    else:
        out = catalog.pick_cell(rng, group)
    # The budget is part of the compiled program, so each cell has few; they are tied
    # to the problem's own length below.
    out["budgets"] = [0, 1, rng.randrange(2, 12), None]
    out["runs"] = 14
    return out


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, 400 if "steps" in cell else 40, clean=0.3)
    plan["budget"] = rng.choice(cell["budgets"] + ["N", "N-1", "N+1"] * ("steps" not in cell))
    return plan


shrink = common.shrink_plan


def same_number(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind != "f":
        return np.array_equal(a, b)
    return np.array_equal(a, b, equal_nan=True)


def near(a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True)


def run(cell, plan):
    most = cell.get("steps", STEPS)
    s, tr, out = common.stepped(cell, plan, most)
    if tr is None:
        return out
    n = len(tr.steps)
    budget = plan["budget"]
    ask = None
    if budget == "default":
        out.probe("default budget")
        ask, budget = budget, DEFAULT
    elif isinstance(budget, str):
        budget = max(0, n + {"N": 0, "N-1": -1, "N+1": 1}[budget])
    if budget is None and tr.ended is None:
        budget = n
    if budget is not None:
        budget = min(budget, most)
    if budget == 0:
        out.probe("budget zero")
    elif budget is None:
        out.probe("unlimited")
    elif tr.ended is not None:
        out.probe(
            "budget one short" if budget == n - 1
            else "budget exactly enough" if budget == n
            else "budget to spare" if budget > n
            else "cut in mid-run"
        )
    cut = n if budget is None else min(budget, n)
    common.history(out, cell, tr, None, f"budget={plan['budget']}/{budget}")
    d = stepper.driver(cell)
    # The prefix, stepped.
    s1 = common.session(cell, plan)
    tr1 = common.attempt(cell, s1, out, lambda: d.run(s1, plan, cut))
    s2 = common.session(cell, plan)
    sol = common.attempt(cell, s2, out, lambda: d.solve(s2, plan, ask or budget))
    if sol is None or tr1 is None:
        out.bad("solve", "solve refused what stepping accepted")
        return out
    out.log(s2)
    # Requests
    a, b = s1.log, s2.log
    for x, y in zip(a, b):
        if not near(x.y, y.y):
            out.bad("requests", f"request {x.tok}: stepped at {x.y}, solve at {y.y}")
            break
    else:
        if len(a) != len(b):
            out.bad("requests", f"{len(a)} requests when stepped, {len(b)} by the solve")
    # The prefix is a prefix of the whole.
    for x, y in zip(s.log, s1.log):
        if x.y.tobytes() != y.y.tobytes():
            out.bad("repeat", f"request {x.tok} differs between two stepped runs")
            break
    steps = int(sol.stats["num_steps"])
    if steps > 256:
        out.probe("more than 256 steps")
    if steps != cut:
        out.bad("steps", f"{steps} steps with budget {budget}, expected {cut} of {n}")
    limit = sol.stats["max_steps"]
    if (limit is None) != (budget is None) or (limit is not None and int(limit) != budget):
        out.bad("stats", f"max_steps is {limit}, asked for {budget}")
    code = stepper.code(sol.result)
    ended = tr.ended if cut == n else None
    want = ended or "nonlinear_max_steps_reached"
    if code != want:
        out.bad("code", f"{code} with budget {budget} of {n} steps, expected {want}")
    out.feed(steps, code, ev.flat(sol.value))
    if not near(ev.flat(sol.value), post_value(cell, d, plan, tr1)):
        out.bad(
            "value",
            f"value {ev.flat(sol.value)}, prefix of {cut} steps ends at "
            f"{post_value(cell, d, plan, tr1)}",
        )
    # State: every array of it.
    la, lb = stepper.leaves(tr1.state), stepper.leaves(sol.state)
    if len(la) != len(lb):
        out.bad("state", f"{len(la)} arrays in the stepped state, {len(lb)} in the solve's")
    else:
        exact = True
        for k, (x, y) in enumerate(zip(la, lb)):
            exact &= same_number(x, y)
            if x.dtype.kind in "biu" and not np.array_equal(x, y):
                out.bad("state", f"state array {k}: {x} when stepped, {y} in the solve")
            elif x.dtype.kind == "f" and not loose(x, y):
                out.bad("state", f"state array {k}: {x} when stepped, {y} in the solve")
        if exact:
            out.probe("state bitwise equal")
    return out


def loose(x, y):
    if x.shape != y.shape:
        return False
    scale = np.max(np.abs(x[np.isfinite(x)]), initial=1e-6) if x.size else 1.0
    return np.allclose(x, y, rtol=1e-5, atol=1e-5 * scale, equal_nan=True)


def post_value(cell, d, plan, tr):
    """The value the documented postprocess returns for a stepped run."""
    if tr.aux is None:
        return ev.flat(tr.y) if not cell["solver"]["name"].startswith("Best") else np.array(plan["y0"])
    ev.register(9, tr.session)
    try:
        y, _, _ = d.post(
            tr.y, tr.aux, d.args(9), d.options(plan), tr.state, tr.result
        )
    finally:
        ev.unregister(9)
    return ev.flat(y)
