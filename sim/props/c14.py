"""The choice of adjoint does not change the forward solve."""

import equinox as eqx
import lineax as lx
import numpy as np
import optimistix as optx

from .. import catalog, common, evaluator as ev, stepper
from ..harness import Outcome


ID = "C14"
CELLS = dict(quick=60, thorough=420)
MUST = (
    "succeeded under every adjoint",
    "failed under every adjoint",
    "ran out of steps under every adjoint",
    "forward pass of reverse mode",
    "unlimited",
    "more than 256 steps",
)
RULE = (
    "A run is one solver, problem, step budget and fault plan, solved once under each adjoint. "
    "Distinct: different configuration, or different (code, step count, faults delivered). "
    "Non-trivial: at least one step was taken."
)
REAL = ["optimistix adjoints, loop, solvers and entry points", "equinox loops", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
ORDER = ("qn", "gn", "root", "fp", "gd", "nm", "optax", "bisect", "golden", "best", "conv", "gn")
CONV = (("root", "gn"), ("fp", "root"), ("root", "qn"), ("lsq", "qn"), ("fp", "gn"))


def cell(rng, i, tier):
    if i % 20 == 19:
        # Hundreds of steps, with no budget or a large one. Without a budget equinox
        # needs to be told how many checkpoints to keep.
        out = catalog.pick_slow(rng)
        out["budget"] = rng.choice([None, None, 300, 2000])
        out["adjoints"] = ["implicit", "implicit-lu", f"checkpoint-{rng.choice([2, 5, 20])}"]
        if out["budget"] is not None:
            out["adjoints"].append("checkpoint")
        out["runs"] = 6
        return out
    group = ORDER[i % len(ORDER)]
    if group == "best":
        out = catalog.wrap_best(catalog.pick_cell(rng, rng.choice(["qn", "gn", "root", "fp", "nm"])))
    elif group == "conv":
        entry, inner = rng.choice(CONV)
        out = catalog.pick_cell(rng, inner)
        out["solver"]["box"] = None
        out["kind"] = entry
        out["m"], out["os"] = out["n"], out["ys"]
        if out["n"] == 1 and "jac" in out["opts"]:
            out["opts"]["jac"] = "fwd"
        out["conv"] = True
    else:
        out = catalog.pick_cell(rng, group)
    out["budget"] = rng.choice([1, 3, 8, rng.randrange(13, 40), rng.randrange(13, 40), 40])
    out["adjoints"] = ["implicit", rng.choice(["implicit-lu", "implicit"]), "checkpoint", f"checkpoint-{rng.choice([1, 2, 3, 5])}"]
    out["adjoints"] = sorted(set(out["adjoints"]))
    if i % 3 == 0:
        # Being about to be differentiated: the forward pass of reverse mode.
        out["adjoints"].append(rng.choice(["forward-checkpoint", "forward-checkpoint-2"]))
    out["runs"] = 14
    return out


def adjoint(name):
    if name == "implicit":
        return optx.ImplicitAdjoint()
    if name == "implicit-lu":
        return optx.ImplicitAdjoint(linear_solver=lx.LU())
    if name == "checkpoint":
        return optx.RecursiveCheckpointAdjoint()
    return optx.RecursiveCheckpointAdjoint(checkpoints=int(name.split("-")[1]))


def solve(d, s, plan, budget, name):
    if not name.startswith("forward-"):
        return d.solve(s, plan, budget, adjoint=adjoint(name))

    c = d.cell
    fn = ev.make_smooth_fn(c["n"], c["m"], c["ys"], c["os"])
    args = dict(theta=np.zeros(1), C=np.zeros((c["m"] or c["n"], 1)))

    def f(y0):
        sol = d.solve(s, plan, budget, adjoint=adjoint(name[8:]), y0=y0, fn=fn, args=args)
        return sol.value, sol

    _, _, sol = eqx.filter_vjp(f, d.y(plan["y0"]), has_aux=True)
    return sol


def gen(cell, rng):
    horizon = 40 if cell["budget"] is None else min(40, 2 * cell["budget"] + 3)
    plan = common.gen_plan(cell, rng, horizon, clean=0.25)
    if cell.get("conv"):
        plan["family"] = dict(lsq="mild", root="mild", fp="contract")[cell["kind"]]
    return plan


shrink = common.shrink_plan


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind != "f":
        return np.array_equal(a, b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True)


def numbers(stats):
    return {k: (None if v is None else np.asarray(v)) for k, v in stats.items()}


def run(cell, plan):
    out = Outcome()
    d = stepper.driver(cell)
    seen = []
    for name in cell["adjoints"]:
        s = common.session(cell, plan)
        sol = common.attempt(
            cell, s, out, lambda: solve(d, s, plan, cell["budget"], name)
        )
        out.log(s)
        if name.startswith("forward-"):
            out.probe("forward pass of reverse mode")
        seen.append((name, s, sol))
    if any(sol is None for _, _, sol in seen):
        if not all(sol is None for _, _, sol in seen):
            out.bad("refusal", f"refused under {[n for n, _, x in seen if x is None]} only")
        out.history = repr((cell["solver"], "refused"))
        return out
    ref, rs, rsol = seen[0]
    code, steps = stepper.code(rsol.result), int(rsol.stats["num_steps"])
    out.steps = steps
    if cell["budget"] is None:
        out.probe("unlimited")
    if steps > 256:
        out.probe("more than 256 steps")
    out.trivial = steps == 0
    out.history = repr((cell["solver"], cell["n"], code, steps, [e.fault for e in rs.log]))
    out.feed(code, steps, ev.flat(rsol.value))
    if code == "successful":
        out.probe("succeeded under every adjoint")
    elif code == "nonlinear_max_steps_reached":
        out.probe("ran out of steps under every adjoint")
    else:
        out.probe("failed under every adjoint")
    for name, s, sol in seen[1:]:
        who = f"{name} against {ref}"
        got = stepper.code(sol.result)
        if got != code:
            out.bad("result", f"{who}: {got}, not {code}")
        a, b = numbers(rsol.stats), numbers(sol.stats)
        if set(a) != set(b) or any(
            (a[k] is None) != (b[k] is None) or (a[k] is not None and not near(a[k], b[k])) for k in a
        ):
            out.bad("stats", f"{who}: {b}, not {a}")
        if not near(ev.flat(sol.value), ev.flat(rsol.value)):
            out.bad("value", f"{who}: {ev.flat(sol.value)}, not {ev.flat(rsol.value)}")
        t, e = stepper.aux_of(sol.aux)
        t0, e0 = stepper.aux_of(rsol.aux)
        if t != t0 or not near(e, e0):
            out.bad("aux", f"{who}: of request {t} at {e}, not {t0} at {e0}")
        if len(s.log) != len(rs.log):
            out.bad("requests", f"{who}: {len(s.log)} requests, not {len(rs.log)}")
        for x, y in zip(s.log, rs.log):
            if not near(x.y, y.y):
                out.bad("requests", f"{who}: request {x.tok} at {x.y}, not {y.y}")
                break
    return out
