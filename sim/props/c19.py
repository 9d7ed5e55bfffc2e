"""Implicit derivatives depend only on where a solve ended."""

import equinox as eqx
import jax
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx

from .. import catalog, common, evaluator as ev, stepper
from ..harness import Outcome


ID = "C19"
CELLS = dict(quick=52, thorough=390)
MUST = (
    "differentiated a success",
    "differentiated a failure",
    "differentiated a solve out of steps",
    "forward mode",
    "reverse mode",
    "differentiated after faults",
    "differentiated a point which is not the last",
    "differentiated what the function closes over",
)
RULE = (
    "A run is one solver, problem, step budget and fault plan: solved, and solved again while "
    "being differentiated. Distinct: different configuration, or different (mode, code, step "
    "count, faults delivered). Non-trivial: at least one step was taken."
)
REAL = ["optimistix implicit adjoint, loop, solvers and entry points", "lineax", "equinox", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
ORDER = (
    "qn", "gn", "root", "fp", "gd", "nm", "bisect", "conv", "golden", "best", "gn", "optax", "conv",
)
CONV = (("root", "gn"), ("fp", "root"), ("lsq", "qn"), ("fp", "gn"), ("lsq", "nm"))
P = 2  # parameters


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "best":
        out = catalog.wrap_best(catalog.pick_cell(rng, rng.choice(["qn", "gn", "root", "fp", "nm"])))
    elif group == "conv":
        entry, inner = rng.choice(CONV)
        out = catalog.pick_cell(rng, inner)
        out["solver"]["box"] = None
        out["kind"] = entry
        out["m"], out["os"] = out["n"], out["ys"]
        if out["n"] == 1 and "jac" in out["opts"]:
            out["opts"]["jac"] = "fwd"
        out["conv"] = True
    else:
        out = catalog.pick_cell(rng, group)
    out["budget"] = rng.choice([1, 3, 8, 20, 40, 40])
    out["mode"] = rng.choice(["jvp", "vjp"])
    out["linear"] = rng.choice(["auto", "auto", "lu", "qr"])
    out["runs"] = 20
    out["closure"] = rng.random() < 0.35
    return out


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, min(40, 2 * cell["budget"] + 3), clean=0.2)
    if cell.get("conv"):
        plan["family"] = dict(lsq="mild", root="mild", fp="contract")[cell["kind"]]
        if cell["kind"] == "lsq" and rng.random() < 0.5:
            plan["family"] = "noisy"
    rows = cell["n"] if cell["m"] is None else cell["m"]
    plan["C"] = [[common.r3(rng.uniform(-1, 1)) for _ in range(P)] for _ in range(rows)]
    plan["t"] = [common.r3(rng.uniform(-1, 1)) for _ in range(P)]
    plan["ty"] = [common.r3(rng.uniform(-1, 1)) for _ in range(cell["n"])]
    return plan


shrink = common.shrink_plan


def adjoint(name):
    if name == "auto":
        return optx.ImplicitAdjoint()
    return optx.ImplicitAdjoint(linear_solver=dict(lu=lx.LU, qr=lx.QR)[name]())


def _solve(cell, solver, y0, theta, sid, C, options):
    args = {"sid": sid, "theta": theta, "C": C}
    fn = ev.make_smooth_fn(cell["n"], cell["m"], cell["ys"], cell["os"])
    if cell["closure"]:
        fn, args = ev.closing_over(fn, args)
    return stepper.solve(
        cell["kind"], fn, solver, y0, args, options,
        max_steps=cell["budget"], throw=False, adjoint=adjoint(cell["linear"]),
    )


def programs(cell, solver):
    """The plain and the differentiated solve, compiled once for a cell."""

    @eqx.filter_jit
    def plain(y0, theta, sid, C, options):
        return _solve(cell, solver, y0, theta, sid, C, options)

    @eqx.filter_jit
    def diff(y0, theta, sid, C, options, t, ty):
        def f(y0, theta):
            sol = _solve(cell, solver, y0, theta, sid, C, options)
            return sol.value, sol

        if cell["mode"] == "jvp":
            (_, sol), (tv, _) = eqx.filter_jvp(f, (y0, theta), (ty, t))
            return sol, tv, None
        # The cotangent has the shape of the value, which has the shape of the start.
        _, pull, sol = eqx.filter_vjp(lambda x: f(*x), (y0, theta), has_aux=True)
        (cy0, ctheta) = pull(ty)[0]
        return sol, ctheta, cy0

    return plain, diff


_PROGRAMS = {}


def matrices(cell, prob, y, C):
    """(A, B): the tangent is -A^{-1} B dtheta."""
    v, J = prob.ev(y)
    v, J = np.asarray(v), np.asarray(J)
    if cell["kind"] == "root":
        return J, C
    if cell["kind"] == "fp":
        return J - np.eye(cell["n"]), C
    H = prob.second(y)
    if cell["kind"] == "min":
        return H, C
    return J.T @ J + np.einsum("i,ijk->jk", v, H), J.T @ C


def run(cell, plan):
    out = Outcome()
    d = stepper.driver(cell)
    key = id(d), cell["budget"], cell["mode"], cell["linear"], cell["closure"]
    if key not in _PROGRAMS:
        _PROGRAMS[key] = programs(cell, d.solver)
    plain, diff = _PROGRAMS[key]
    options = d.options(plan)
    y0, theta = d.y(plan["y0"]), jnp.zeros(P)
    C, sid = jnp.array(plan["C"]), jnp.array(1)

    def go(s, f):
        ev.register(1, s)
        s.mark = "solve"
        try:
            return common.attempt(cell, s, out, f)
        finally:
            ev.unregister(1)

    s = common.session(cell, plan)
    sol = go(s, lambda: plain(y0, theta, sid, C, options))
    out.log(s)
    if sol is None:
        out.history = repr((cell["solver"], "refused"))
        return out
    code, steps, y = stepper.code(sol.result), int(sol.stats["num_steps"]), ev.flat(sol.value)
    out.feed(code, steps, y)
    out.steps = steps
    out.trivial = steps == 0
    out.history = repr((cell["solver"], cell["mode"], cell["n"], code, steps, [e.fault for e in s.log]))
    # Later requests are about the derivative, and are answered well.
    early = {k: v for k, v in common.faults_of(plan).items() if k < s.n}
    s2 = common.session(cell, plan, faults=early)
    if plan.get("hole") and (not np.all(np.isfinite(y)) or np.dot(plan["hole"][0], y) > plan["hole"][1]):
        out.probe("ended in a hole")
        return out
    if not np.all(np.isfinite(y)):
        out.probe("ended at a point which is not finite")
        return out
    A, B = matrices(cell, s2.problem, y, np.array(plan["C"]))
    if not np.all(np.isfinite(A)) or np.linalg.cond(A) > 1e6 or np.max(np.abs(A)) > 1e12:
        out.probe("ended where the derivative does not exist")
        return out
    t, ty = jnp.array(plan["t"]), d.y(plan["ty"])
    try:
        got = go(s2, lambda: diff(y0, theta, sid, C, options, t, ty))
    except Exception as e:
        out.bad("raised", f"differentiating raised {type(e).__name__}: {str(e)[-300:]}")
        return out
    out.log(s2)
    if got is None:
        out.bad("raised", "refused only when differentiated")
        return out
    sol2, tangent, cy0 = got
    code2, steps2, y2 = stepper.code(sol2.result), int(sol2.stats["num_steps"]), ev.flat(sol2.value)
    out.feed(code2, steps2, y2, ev.flat(tangent))
    if (code2, steps2) != (code, steps):
        out.bad("result", f"{code2} in {steps2} steps when differentiated, not {code} in {steps}")
        return out
    if not np.allclose(y2, y, rtol=1e-6, atol=1e-9):
        out.bad("value", f"{y2} when differentiated, not {y}")
        return out
    for a, b in zip(s2.log, s.log):
        if not np.allclose(a.y, b.y, rtol=1e-6, atol=1e-9, equal_nan=True):
            out.bad("requests", f"request {a.tok} at {a.y} when differentiated, not {b.y}")
            return out
    late = s2.log[len(s.log) :]
    for e in late:
        if not np.array_equal(e.y, y2):
            out.bad("where", f"derivative asked for at {e.y}, the solve returned {y2}")
            return out
    A, B = matrices(cell, s2.problem, y2, np.array(plan["C"]))
    t, ty = np.array(plan["t"]), np.array(plan["ty"])
    if cell["mode"] == "jvp":
        want = -np.linalg.solve(A, B @ t)
        out.probe("forward mode")
    else:
        want = -B.T @ np.linalg.solve(A.T, ty)
        out.probe("reverse mode")
        if cy0 is not None and np.any(ev.flat(cy0) != 0):
            out.bad("start", f"the starting point has derivative {ev.flat(cy0)}")
    got = ev.flat(tangent)
    scale = np.linalg.norm(np.linalg.inv(A)) * np.linalg.norm(B) * 3
    if not np.allclose(got, want, rtol=1e-6, atol=1e-9 * scale * np.linalg.cond(A)):
        out.bad("derivative", f"{got}, not {want}, at {y2}")
    out.probe(
        {
            "successful": "differentiated a success",
            "nonlinear_max_steps_reached": "differentiated a solve out of steps",
        }.get(code, "differentiated a failure")
    )
    if early:
        out.probe("differentiated after faults")
    if not any(np.array_equal(e.y, y2) for e in s.log[-2:]):
        out.probe("differentiated a point which is not the last")
    if cell["closure"]:
        out.probe("differentiated what the function closes over")
    return out
