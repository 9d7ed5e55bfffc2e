"""Conjugate gradient directions follow their formulas for every history."""

from .. import catalog, common


ID = "C24"
CELLS = dict(quick=64, thorough=560)
MUST = (
    "a trial was rejected",
    "direction compared",
    "direction compared after a rejection",
    "previous direction had an influence",
    "fell back to the gradient",
)
RULE = (
    "A run is one solver configuration with a conjugate gradient descent, problem and fault "
    "plan, stepped through the real solver. Distinct: different configuration or different "
    "sequence of (accepted/rejected, fault, stop flag, code). Non-trivial: at least one step "
    "was taken."
)
REAL = ["optimistix NonlinearCG, gradient descent, Gauss-Newton, searches (from /repo)", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
LABELS = ("trial", "leak", "iterate", "requests")
STEPS = 45
KINDS = ("nan", "vnan", "inf", "high", "high", "bias", "garble", "stale", "jzero", "low", "zero")
ORDER = ("gd", "gd", "gn")
METHODS = ("pr", "fr", "hs", "dy")


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    while True:
        out = catalog.pick_cell(rng, group)
        descent, kw = catalog.components(out["solver"])[1]
        if descent == "ncg" and (out["n"] > 1 or rng.random() < 0.3):
            break
    kw["method"] = METHODS[i % len(METHODS)]
    out["runs"] = 20
    return out


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, kinds=KINDS)
    plan["stop"] = rng.random() < 0.3
    return plan


shrink = common.shrink_plan


def run(cell, plan):
    s, tr, out, complaints, model = common.judged(cell, plan, STEPS, plan["stop"])
    if tr is None:
        return out
    for i, label, msg in complaints:
        if label in LABELS:
            out.bad(label, f"step {i}: {msg}")
        elif label == "direction-known":
            out.bad("hestenes-stiefel", f"step {i}: {msg}")
    for what, k in model.descent.seen.items():
        if k:
            out.probe(what, k)
    return out
