"""Step-size searches follow their rules for every outcome."""

import equinox as eqx
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx

from .. import catalog, common
from ..harness import Outcome


ID = "C12"
CELLS = dict(quick=64, thorough=560)
MUST = (
    "a trial was rejected",
    "tie at the acceptance cutoff",
    "tie at the growth cutoff",
    "unusable answer",
    "rise was predicted",
    "step size grew",
)
RULE = (
    "A run is either a search driven directly with a planned sequence of outcomes in exactly "
    "representable numbers, or a solver configuration, problem and fault plan stepped through "
    "the real solver. Distinct: different configuration or different sequence of (accepted/"
    "rejected, grown, kind of outcome). Non-trivial: at least one step was taken."
)
REAL = ["optimistix searches; in solver runs also solvers and descents (from /repo)", "jax"]
STUB = [
    common.STUB_EVALUATOR,
    common.STUB_PROBLEM,
    "function information handed to a search (in runs driving it directly)",
]
LABELS = ("accept", "leak", "trial", "rise")
STEPS = 45
ORDER = ("direct", "qn", "gn", "direct", "gd")
F = optx.FunctionInfo


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "direct":
        kind = ("armijo", "lintr", "classtr", "armijo", "classtr", "lintr", "lr")[(i // 5 * 2 + (i % 5 > 0)) % 7]
        if kind == "armijo":
            kw = dict(
                decrease_factor=rng.choice([0.5, 0.25, 0.75]),
                slope=rng.choice([0.125, 0.25, 0.5]),
                step_init=rng.choice([1.0, 0.5, 2.0, 1.5]),
            )
        elif kind == "lr":
            kw = dict(rate=rng.choice([0.5, 0.1, 1.0]))
        else:
            kw = dict(
                low_cutoff=rng.choice([0.25, 0.75, 0.125, 0.0]),
                high_cutoff=rng.choice([0.75, 0.9375, 1.0, 2.0]),
                low_constant=rng.choice([0.25, 0.5, 0.75]),
                high_constant=rng.choice([2.0, 3.5, 1.5]),
            )
        infos = ["EvalGrad", "EvalGradHessian", "EvalGradHessianInv", "ResidualJac"]
        if kind == "classtr":
            infos = ["EvalGradHessian", "ResidualJac"]
        return dict(
            solver=dict(name="direct", search=[kind, kw]),
            group="direct",
            info=rng.choice(infos),
            n=rng.choice([1, 2, 3]),
            runs=30,
        )
    out = catalog.pick_cell(rng, group)
    while catalog.components(out["solver"])[0][0] == "lr" and rng.random() < 0.8:
        out = catalog.pick_cell(rng, group)
    out["runs"] = 20
    return out


def gen(cell, rng):
    if cell["group"] != "direct":
        plan = common.gen_plan(cell, rng)
        plan["stop"] = rng.random() < 0.4
        return plan
    kind, kw = cell["solver"]["search"]
    special = rng.choice([[], [], ["nan"], ["inf"], ["nan", "inf", "gnan", "finf"]])
    lean = rng.choice([None, None, "good", "bad"])
    events = []
    n = cell["n"]
    for k in range(rng.choice([8, 20, 40])):
        e = dict(
            d=[rng.choice([-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 4.0]) for _ in range(n)],
            g=[float(rng.randint(-4, 4)) for _ in range(n)],
            h=[float(rng.randint(0, 3)) for _ in range(n)],
            f=float(rng.randint(-8, 8)),
            r=[float(rng.randint(-4, 4)) for _ in range(2)],
            J=[[float(rng.randint(-2, 2)) for _ in range(n)] for _ in range(2)],
            r2=[float(rng.randint(-5, 5)) for _ in range(2)],
            how=rng.choice(["tie", "tie-high", "random", "random", "above", "below", "great"]),
            fault=None,
            first=k == 0 or rng.random() < 0.02,
        )
        if lean == "good" and rng.random() < 0.7:
            e["how"] = "great"
        if lean == "bad" and rng.random() < 0.7:
            e["how"] = "above"
        if special and rng.random() < 0.3:
            e["fault"] = rng.choice(special)
        e["shift"] = rng.choice([0.25, 1.0, 3.0])
        events.append(["outcome", e])
    return dict(events=events)


def shrink(cell, plan):
    return [] if cell["group"] == "direct" else common.shrink_plan(cell, plan)


def run(cell, plan):
    if cell["group"] == "direct":
        return direct(cell, plan)
    s, tr, out, complaints, model = common.judged(cell, plan, STEPS, plan["stop"])
    if tr is None:
        return out
    for i, label, msg in complaints:
        if label in LABELS:
            out.bad(label, f"step {i}: {msg}")
    return out


@eqx.filter_jit
def _search_step(search, first, y, y_eval, info, info_eval, state):
    return search.step(first, y, y_eval, info, info_eval, state)


def _infos(name, n, e, f, fe):
    g, h = np.array(e["g"]), np.diag(np.array(e["h"]) + 1.0)
    if e["fault"] == "gnan":
        g = np.full_like(g, np.nan)
    if name == "ResidualJac":
        J = np.array(e["J"])
        r, r2 = np.array(e["r"]), np.array(e["r2"])
        if e["fault"] == "gnan":
            J = np.full_like(J, np.nan)
        if e["fault"] == "nan":
            r2 = np.array([np.nan, r2[1]])
        if e["fault"] == "inf":
            r2 = np.array([r2[0], np.inf])
        if e["fault"] == "finf":
            r = np.array([np.inf, r[1]])
        op = lx.MatrixLinearOperator(jnp.asarray(J))
        return F.ResidualJac(jnp.asarray(r), op), F.Residual(jnp.asarray(r2)), (r, J, r2)
    f, fe = jnp.asarray(f), jnp.asarray(fe)
    g = jnp.asarray(g)
    op = lx.MatrixLinearOperator(jnp.asarray(h), lx.positive_semidefinite_tag)
    if name == "EvalGrad":
        info = F.EvalGrad(f, g)
    elif name == "EvalGradHessian":
        info = F.EvalGradHessian(f, g, op)
    else:
        info = F.EvalGradHessianInv(f, g, op)
    return info, F.Eval(fe), None


def direct(cell, plan):
    out = Outcome()
    kind, kw = cell["solver"]["search"]
    search = catalog.build_search(cell["solver"]["search"])
    n, name = cell["n"], cell["info"]
    y = jnp.zeros(n)
    state = None
    size = kw.get("step_init", 1.0)
    marks = []
    with np.errstate(all="ignore"):
        for k, (_, e) in enumerate(plan["events"]):
            d, g = np.array(e["d"]), np.array(e["g"])
            if e["fault"] == "gnan":
                g = np.full_like(g, np.nan)
            pred = float(g @ d)
            if kind == "classtr":
                pred += 0.5 * float(d @ ((np.array(e["h"]) + 1.0) * d))
            c = kw.get("slope", kw.get("low_cutoff", 0.0))
            c2 = kw.get("high_cutoff", c)
            f = e["f"]
            base = pred if np.isfinite(pred) else 0.0
            fe = f + {
                "tie": c * base,
                "tie-high": c2 * base,
                "above": max(c * base, 0) + e["shift"],
                "below": c * base - e["shift"],
                "great": c2 * base - e["shift"],
                "random": e["r2"][0],
            }[e["how"]]
            if e["fault"] == "nan":
                fe = np.nan
            if e["fault"] == "inf":
                fe = np.inf
            if e["fault"] == "finf":
                f = np.inf
            info, info_eval, res = _infos(name, n, e, f, fe)
            if res is not None:
                r, J, r2 = res
                f, fe = 0.5 * float(r @ r), 0.5 * float(r2 @ r2)
                if kind == "classtr":
                    z = J @ d + r
                    pred = 0.5 * (float(z @ z) - float(r @ r))
                else:
                    pred = float(r @ (J @ d))
            fdiff = fe - f
            if state is None:
                state = search.init(y, info)
            first = bool(e["first"])
            got_size, accept, result, state = _search_step(
                search, jnp.array(first), y, jnp.asarray(d), info, info_eval, state
            )
            got_size, accept = float(got_size), bool(accept)
            out.feed(got_size, accept)
            # The documented rules.
            good = False
            if kind == "lr":
                want = True
            elif kind == "armijo":
                want = first or (fdiff <= kw["slope"] * pred and pred <= 0)
                if fdiff == kw["slope"] * pred and pred < 0:
                    out.probe("tie at the acceptance cutoff")
            else:
                if pred < 0:
                    want = fdiff <= kw["low_cutoff"] * pred
                    good = fdiff < kw["high_cutoff"] * pred
                    if fdiff == kw["low_cutoff"] * pred:
                        out.probe("tie at the acceptance cutoff")
                        # "Reject if the ratio is smaller than the cutoff."
                    if fdiff == kw["high_cutoff"] * pred:
                        out.probe("tie at the growth cutoff")
                else:
                    # No ratio to speak of: at least never accept a rise.
                    want = False if not fdiff <= 0 or np.isnan(pred) else None
                    out.probe("rise was predicted")
                if first:
                    want, good = True, False
            if e["fault"] and not first:
                out.probe("unusable answer")
                out.faults[e["fault"]] = out.faults.get(e["fault"], 0) + 1
            where = f"outcome {k}: change {fdiff!r}, predicted {pred!r}, first={first}"
            if want is not None and accept != want:
                out.bad("accept", f"{where}: {'accepted' if accept else 'rejected'}")
            good = good and accept
            if kind == "armijo":
                size = kw["step_init"] if accept else kw["decrease_factor"] * size
            elif kind == "lr":
                size = kw["rate"]
            else:
                size *= (kw["high_constant"] if good else 1.0) if accept else kw["low_constant"]
            if good:
                out.probe("step size grew")
            if not abs(got_size - size) <= 1e-15 * abs(size):
                out.bad("size", f"{where}: step size {got_size!r}, expected {size!r}")
                size = got_size
            if not (result == optx.RESULTS.successful):
                out.bad("code", f"{where}: search reports a failure")
            marks.append(("A" if accept else "R") + ("g" if good else "") + (e["fault"] or ""))
    out.steps = len(marks)
    out.trivial = not marks
    out.history = repr((cell["solver"], name, n, marks))
    return out
