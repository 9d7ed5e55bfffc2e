"""Auxiliary output belongs to the point it is returned with."""

import numpy as np

from .. import catalog, common, stepper


ID = "C16"
CELLS = dict(quick=72, thorough=560)
MUST = ("a trial was rejected", "acceptance after a rejection")
RULE = (
    "Every answer of the evaluator carries its request number and point as auxiliary "
    "output. A run is one solver configuration, problem and fault plan, stepped and then "
    "solved. Distinct: different configuration or different sequence of (what the step "
    "did, fault, stop flag, code). Non-trivial: at least one step was taken."
)
REAL = ["optimistix entry points and solvers (compiled from /repo)", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
STEPS = 40
ORDER = ("qn", "gn", "gd", "qn", "gn", "gd", "root", "bisect", "golden", "fp", "optax", "nm")


def cell(rng, i, tier):
    out = catalog.pick_cell(rng, ORDER[i % len(ORDER)])
    out["runs"] = 20
    return out


def gen(cell, rng):
    return common.gen_plan(cell, rng)


shrink = common.shrink_plan


def run(cell, plan):
    s, tr, out, complaints, model = common.judged(cell, plan, STEPS)
    if tr is None:
        return out
    for i, label, msg in complaints:
        if label == "aux":
            out.bad(label, f"step {i}: {msg}")
    for st in tr.steps:
        tok, echo = st.aux
        if 0 <= tok < len(s.log):
            e = s.log[tok]
            if np.array_equal(e.y, st.y_in, equal_nan=True) and np.array_equal(
                e.y, echo, equal_nan=True
            ):
                continue
        name = cell["solver"]["name"]
        sig = "owner"
        if name == "NelderMead" and st.i == 0 and tok == st.entries[0].tok:
            # Known: the first vertex of the starting simplex is not the start.
            sig = "nm-first-aux"
        elif name == "GoldenSearch" and st.i == 0 and tok == st.entries[0].tok:
            sig = "golden-first-aux"
        out.bad(
            sig,
            f"step {st.i} from {st.y_in} returned auxiliary output of request {tok} at {echo}",
        )
    d = stepper.driver(cell)
    s2 = common.session(cell, plan)
    sol = common.attempt(cell, s2, out, lambda: d.solve(s2, plan, STEPS))
    if sol is None:
        out.bad("solve", "solve refused what stepping accepted")
        return out
    out.log(s2)
    if tr.steps:
        tok, echo = stepper.aux_of(sol.aux)
        out.feed(tok, echo)
        want, echo2 = tr.steps[-1].aux
        if tok != want or not np.array_equal(echo, echo2, equal_nan=True):
            out.bad(
                "final",
                f"solve returned auxiliary output of request {tok}, last step's is {want}",
            )
    return out
