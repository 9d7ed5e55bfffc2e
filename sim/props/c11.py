"""Curvature memory reflects exactly the accepted history."""

import equinox as eqx
import numpy as np

from .. import catalog, common, models


ID = "C11"
CELLS = dict(quick=64, thorough=560)
MUST = (
    "a trial was rejected",
    "matrix compared",
    "matrix compared after a rejection",
    "memory wrapped around",
    "update skipped",
)
RULE = (
    "A run is one quasi-Newton configuration, problem and fault plan, stepped through the "
    "real solver. Distinct: different configuration or different sequence of "
    "(accepted/rejected, update applied/skipped, fault, stop flag, code). Non-trivial: at "
    "least one step was taken."
)
REAL = ["optimistix BFGS, DFP, L-BFGS, searches, descents (compiled from /repo)", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
LABELS = ("trial", "leak", "requests")
STEPS = 45
KINDS = ("nan", "vnan", "inf", "high", "high", "bias", "garble", "stale", "jzero", "low", "zero")


def cell(rng, i, tier):
    out = catalog.pick_cell(rng, "qn")
    while out["n"] == 1 and rng.random() < 0.7:
        out = catalog.pick_cell(rng, "qn")
    out["runs"] = 20
    return out


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, kinds=KINDS)
    plan["stop"] = rng.random() < 0.3
    return plan


shrink = common.shrink_plan


@eqx.filter_jit
def _dense(op):
    return op.as_matrix()


def matrix(state):
    """The solver's own estimate, as (is it the inverse, matrix), if it can be found."""
    info = getattr(state, "f_info", None)
    for name in ("hessian_inv", "hessian"):
        op = getattr(info, name, None)
        if op is not None:
            return name == "hessian_inv", np.asarray(_dense(op))
    return None


def run(cell, plan):
    s, tr, out = common.stepped(cell, plan, STEPS, plan["stop"], keep_state=True)
    if tr is None:
        return out
    model = models.model_for(cell)
    if tr.init_entries:
        out.bad("requests", "requests at the start")
    marks = []
    rejected_before = False
    for st in tr.steps:
        before = model.quasi.pairs
        try:
            complaints = model.step(st)
        except (ArithmeticError, np.linalg.LinAlgError):
            model.gave_up = True
            break
        for label, msg in complaints:
            if label in LABELS:
                out.bad(label, f"step {st.i}: {msg}")
        kind = model.history[-1] if model.history else "?"
        applied = model.quasi.pairs > before
        marks.append("+" if applied else "-")
        if kind == "A" and not applied and st.i > 0:
            out.probe("update skipped")
        if applied and cell["solver"].get("hist", 1 << 30) < model.quasi.pairs:
            out.probe("memory wrapped around")
        if model.blind or model.quasi.doubt:
            continue
        got = matrix(st.state)
        if got is None:
            continue
        if kind == "R":
            rejected_before = True
        inverse, M = got
        Hs = model.quasi.ensemble()
        cond = np.linalg.cond(Hs[0])
        if not cond < 1e7:
            continue
        want = Hs if inverse else [np.linalg.inv(H) for H in Hs]
        scale = np.max(np.abs(want[0]))
        spread = max(float(np.max(np.abs(w - want[0]))) for w in want)
        # The compact form of limited memory loses digits of its own.
        rel = 1e-5 if "hist" in cell["solver"] and not inverse else 1e-7
        tol = 200 * spread + (rel + 1e-12 * cond) * scale
        err, err2 = model.quasi.err, model.quasi.err_direct
        tol += 100 * (err if inverse else err2 + err * scale**2)
        if tol > 1e-3 * scale:
            continue
        out.probe("matrix compared")
        if rejected_before and kind == "A":
            out.probe("matrix compared after a rejection")
        if not np.all(np.abs(M - want[0]) <= tol):
            out.bad(
                "matrix",
                f"step {st.i} ({kind}, {model.quasi.pairs} updates): "
                f"{'inverse ' if inverse else ''}Hessian\n{M}\nexpected\n{want[0]}",
            )
    common.history(out, cell, tr, model, "".join(marks))
    common.probes(out, tr, model)
    return out
