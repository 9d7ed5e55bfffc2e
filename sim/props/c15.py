"""Nelder-Mead reports its true best vertex."""

import numpy as np

from .. import catalog, common, evaluator as ev, stepper


ID = "C15"
CELLS = dict(quick=48, thorough=480)
MUST = (
    "reflection",
    "expansion",
    "inner contraction",
    "outer contraction",
    "shrink",
    "several vertices tie",
    "an infinite vertex",
    "a NaN vertex",
    "run ended in success",
    "budget zero",
)
RULE = (
    "A run is one configuration, start, function and fault plan: stepped against a simplex "
    "rebuilt from the requests alone, then solved. Distinct: different configuration or "
    "different sequence of (move, fault, stop flag, code). Non-trivial: at least one move was "
    "made after the starting simplex."
)
REAL = ["optimistix Nelder-Mead, loop and minimise", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
STEPS = 70
LABELS = ("requests", "trial", "move", "best", "start", "start-known")
STATS = dict(
    num_reflections="reflect",
    num_inner_contractions="inner",
    num_outer_contractions="outer",
    num_expansions="expand",
    num_shrinkages="shrink",
)
KINDS = ("inf", "zero", "ninf", "high", "low", "bias", "stale", "garble", "nan")


def cell(rng, i, tier):
    out = catalog.pick_cell(rng, "nm", nmax=rng.choice([4, 4, 5, 6]))
    if i % 4 == 0:
        # Scalar leaves: the starting simplex is the documented one.
        out["ys"] = "scals"
    out["runs"] = 20
    out["budgets"] = [0, 1, rng.randrange(2, 20), STEPS]
    return out


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, 120, KINDS if rng.random() < 0.4 else KINDS[:-1], holes=0)
    plan["budget"] = rng.choice([STEPS, STEPS] + cell["budgets"])
    if rng.random() < 0.2:
        plan["y0"] = [0.0 if rng.random() < 0.5 else y for y in plan["y0"]]
    if rng.random() < 0.15:
        # Shrink: a run of trial answers worse than every vertex.
        k = cell["n"] + 1 + 2 * rng.randrange(0, 12)
        plan["events"] = [["fault", j, rng.choice(["high", "inf"]), 0.5] for j in range(k, k + 2)]
    return plan


shrink = common.shrink_plan


def vertices(simplex, n):
    """Rows of a simplex held as a pytree with a leading axis."""
    import jax

    leaves = [np.asarray(x) for x in jax.tree_util.tree_leaves(simplex)]
    return np.concatenate([x.reshape(x.shape[0], -1) for x in leaves], axis=1)


def pairs(P, F):
    return sorted((tuple(p), float(f)) for p, f in zip(np.asarray(P).tolist(), np.asarray(F)))


def run(cell, plan):
    from .. import models

    budget = plan["budget"]
    s, tr, out = common.stepped(cell, plan, budget, keep_state=True)
    model = models.model_for(cell)
    for msg in model.start(tr, plan):
        out.bad(*msg)
    for st in tr.steps:
        for label, msg in model.step(st):
            if label in LABELS:
                out.bad("start-simplex" if label == "start-known" else label, f"step {st.i}: {msg}")
        if model.blind and not model.nan:
            break
        P = getattr(st.state, "simplex", None)
        F = getattr(st.state, "f_simplex", None)
        if P is not None and F is not None:
            P = vertices(P, cell["n"])
            # (Vertices which agree but for rounding can trade places.)
            if not model.holds(P, np.asarray(F)):
                out.bad(
                    "simplex",
                    f"step {st.i}: holds {pairs(P, F)}, the function said {pairs(model.P, model.F)}",
                )
        if model.nan:
            out.probe("a NaN vertex")
            break
        best = getattr(st.state, "best", None)
        if best is not None and float(best[0]) != float(np.min(model.F)):
            out.bad("best-value", f"step {st.i}: best value {float(best[0])} of {model.F}")
        if np.any(np.isinf(model.F)):
            out.probe("an infinite vertex")
        if np.sum(model.F == np.min(model.F)) > 1:
            out.probe("several vertices tie")
    common.history(out, cell, tr, model, f"budget={budget}")
    out.trivial = len(tr.steps) < 2
    common.probes(out, tr, None)
    names = dict(
        reflect="reflection", expand="expansion", inner="inner contraction",
        outer="outer contraction", shrink="shrink",
    )
    for k, v in model.counts.items():
        if v:
            out.probe(names[k], v)
    if budget == 0:
        out.probe("budget zero")
    d = stepper.driver(cell)
    s2 = common.session(cell, plan)
    sol = d.solve(s2, plan, budget)
    out.log(s2)
    out.feed(ev.flat(sol.value), stepper.code(sol.result))
    if len(s2.log) != len(s.log) or any(
        not np.allclose(a.y, b.y, rtol=1e-6, atol=1e-9) for a, b in zip(s.log, s2.log)
    ):
        out.bad("requests", f"{len(s.log)} requests stepped, {len(s2.log)} by the solve, or elsewhere")
        return out
    if not model.blind:
        got = {k: int(sol.stats[k]) for k in STATS}
        want = {k: model.counts[v] for k, v in STATS.items()}
        if got != want:
            out.bad("stats", f"counted {got}, made {want}")
        if tr.steps:
            value = ev.flat(sol.value)
            low = float(np.min(model.F))
            if not any(
                np.array_equal(e.y, value) and np.isclose(float(e.v), low, rtol=1e-6, atol=1e-9)
                for e in s2.log
            ) and np.isfinite(low):
                out.bad("value", f"value {value} is no vertex of value {low}")
    return out
