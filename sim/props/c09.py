"""Best-so-far keeps the best iterate visited."""

import numpy as np

from .. import catalog, common, evaluator as ev, stepper


ID = "C09"
CELLS = dict(quick=72, thorough=520)
MUST = (
    "best was displaced",
    "last iterate was not the best",
    "a tie",
    "no comparable loss",
    "run cut off",
    "run ended in success",
    "NaN loss after the best",
)
RULE = (
    "A run is one wrapped solver, problem, step budget and fault plan: stepped, solved, and the "
    "unwrapped solver stepped. Distinct: different configuration or different sequence of "
    "(order of the losses, fault, stop flag, code). Non-trivial: at least one step was taken."
)
REAL = ["optimistix best-so-far wrappers, wrapped solvers and entry points", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
ORDER = ("qn", "gn", "root", "fp", "gd", "optax", "gn", "nm", "fp", "bisect", "golden", "root")


def cell(rng, i, tier):
    out = catalog.wrap_best(catalog.pick_cell(rng, ORDER[i % len(ORDER)]))
    out["budget"] = rng.choice([1, 2, 4, 7, 12, 30])
    out["runs"] = 20
    return out


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, clean=0.1)
    style = rng.choice(["asis", "asis", "asis", "lies", "ties", "allnan"])
    if style == "lies":
        # A loss far too low at one iterate: the best ever after.
        k = rng.randrange(0, 8) + (12 if cell["solver"]["inner"].get("expand") else 0)
        plan["events"] = [["fault", k, "low" if cell["m"] is None else "garble", common.r3(rng.random())]]
    elif style == "ties" and cell["group"] not in ("bisect",):
        k = rng.randrange(0, 6)
        plan["events"] = [["fault", j, "stale", 0.5] for j in range(k, k + rng.choice([1, 3, 8]))]
    elif style == "allnan" and cell["group"] != "bisect" and rng.random() < 0.5:
        plan["events"] = [["fault", j, rng.choice(["vnan", "inf"]), 0.5] for j in range(60)]
    return plan


shrink = common.shrink_plan


def loss(cell, e):
    with np.errstate(all="ignore"):
        if cell["kind"] == "min":
            return float(e.v)
        if cell["kind"] == "fp":
            return float(np.sum((e.v - e.y) ** 2))
        return float(np.sum(e.v**2))


def usable(x):
    return not np.isnan(x) and x < np.inf


def near(a, b):
    return np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True)


def run(cell, plan):
    s, tr, out = common.stepped(cell, plan, cell["budget"])
    if tr is None:
        out.history = repr((cell["solver"], "refused"))
        return out
    common.probes(out, tr, None)
    inner = cell["solver"]["inner"]["name"]
    foreign = False
    losses = []
    for st in tr.steps:
        tok, _ = st.aux
        e = s.log[tok] if 0 <= tok < len(s.log) else None
        if e is None or not np.array_equal(e.y, st.y_in, equal_nan=True):
            sig = "pairing"
            if inner in ("GoldenSearch", "NelderMead") and st.i == 0 and tok == st.entries[0].tok:
                # Known: the point the first step really evaluates is not its input.
                sig, foreign = "first-step-pairing", True
            out.bad(sig, f"step {st.i} from {st.y_in} carries the answer of request {tok}")
        losses.append(np.nan if e is None else loss(cell, e))
    order = rank(losses)
    common.history(out, cell, tr, None, f"{order}")
    good = [x for x in losses if usable(x)]
    best = min(good, default=np.inf)
    if order and max(order) > 0:
        out.probe("best was displaced")
    if len(good) > 1 and sum(x == best for x in good) > 1:
        out.probe("a tie")
    if losses and not good:
        out.probe("no comparable loss")
    if losses and not losses[-1] == best:
        out.probe("last iterate was not the best")
    if good and any(np.isnan(x) for x in losses[losses.index(best) :]):
        out.probe("NaN loss after the best")
    d = stepper.driver(cell)
    # By hand.
    if tr.steps:
        ev.register(9, s)
        y, aux, _ = d.post(tr.y, tr.aux, d.args(9), d.options(plan), tr.state, tr.result)
        ev.unregister(9)
        verdict(cell, plan, out, "postprocess", tr, s, y, aux, losses, best, foreign)
    # By the entry point.
    s2 = common.session(cell, plan)
    sol = common.attempt(cell, s2, out, lambda: d.solve(s2, plan, cell["budget"]))
    if sol is None:
        out.bad("solve", "solve refused what stepping accepted")
        return out
    out.log(s2)
    out.feed(ev.flat(sol.value), stepper.code(sol.result))
    verdict(cell, plan, out, "solve", tr, s2, sol.value, sol.aux, losses, best, foreign)
    # The wrapper watches; it does not steer.
    bare = dict(cell, solver=cell["solver"]["inner"])
    s3 = common.session(cell, plan)
    tr3 = common.attempt(bare, s3, out, lambda: stepper.driver(bare).run(s3, plan, cell["budget"]))
    if tr3 is None or len(s3.log) != len(s.log):
        out.bad("steer", f"{len(s.log)} requests wrapped, {len(s3.log)} bare")
    else:
        for a, b in zip(s.log, s3.log):
            if not near(a.y, b.y):
                out.bad("steer", f"request {a.tok}: wrapped at {a.y}, bare at {b.y}")
                break
        if (tr3.ended, len(tr3.steps)) != (tr.ended, len(tr.steps)):
            out.bad("steer", f"wrapped {tr.ended} in {len(tr.steps)}, bare {tr3.ended} in {len(tr3.steps)}")
    return out


def rank(losses):
    """Positions of the running best."""
    best, out = np.inf, []
    for k, x in enumerate(losses):
        if x < best:
            best = x
            out.append(k)
    return out


def verdict(cell, plan, out, how, tr, s, y, aux, losses, best, foreign):
    y = ev.flat(y)
    if best == np.inf:
        if not np.array_equal(y, np.asarray(plan["y0"], np.float64)):
            out.bad("start", f"{how}: no iterate has a comparable loss, returned {y}, not the start")
        return
    tok, echo = stepper.aux_of(aux)
    # The very run that gave the losses, or a separately compiled one.
    size = abs(best) if np.isfinite(best) else 0.0
    slack = 1e-10 * size if how == "postprocess" else 1e-6 * size + 1e-12
    if not 0 <= tok < len(s.log):
        out.bad("aux", f"{how}: auxiliary output of request {tok}")
        return
    e = s.log[tok]
    mine = loss(cell, e)
    if not mine <= best + slack:
        out.bad("best", f"{how}: returned loss {mine} of request {tok}, best visited is {best}")
    elif not (np.array_equal(e.y, y, equal_nan=True) and np.array_equal(echo, y, equal_nan=True)):
        first = foreign and np.array_equal(y, np.asarray(plan["y0"], np.float64))
        out.bad(
            "first-step-pairing" if first else "aux",
            f"{how}: returned {y} with the auxiliary output of request {tok} at {e.y}",
        )
    elif not any(near(st.y_in, y) and x <= best + slack for st, x in zip(tr.steps, losses)):
        out.bad("visited", f"{how}: returned {y}, from which no step of best loss was taken")
