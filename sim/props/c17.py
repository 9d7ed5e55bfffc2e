"""The scipy-style front end tells the truth."""

import functools as ft

import equinox as eqx
import jax.numpy as jnp
import numpy as np
import optimistix as optx
import optimistix.compat as compat

from .. import catalog, common, evaluator as ev, stepper


ID = "C17"
CELLS = dict(quick=48, thorough=360)
MUST = (
    "status 0",
    "status 1",
    "status 3",
    "unlimited",
    "a trial was rejected",
    "last trial was rejected",
    "default tolerance",
    "default norm",
)
RULE = (
    "A run is one call of compat.minimize with a tolerance, norm, iteration limit, function and "
    "fault plan, against a stepped BFGS judged by a reference. Distinct: different options or "
    "different sequence of (accept/reject, fault, stop flag, code). Non-trivial: at least one "
    "iteration was made."
)
REAL = ["optimistix.compat.minimize, BFGS, loop", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
STEPS = 60


def cell(rng, i, tier):
    n = rng.choice([1, 2, 3, 4])
    tol = rng.choice([None, None, 1e-2, 1e-4, 1e-7])
    norm = rng.choice([None, "max", "rms", "two", "rms", "two"])
    spec = dict(
        name="BFGS", inv=True, group="qn", norm=norm or "max",
        rtol=1e-5 if tol is None else tol, atol=1e-5 if tol is None else tol,
    )
    return dict(
        solver=spec, group="qn", kind="min", n=n, m=None, ys="vec", os=None,
        opts={"autodiff_mode": "bwd"}, tol=tol, norm=norm,
        limits=[None, rng.randrange(0, 4), rng.randrange(4, 20)], runs=24,
    )


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, clean=0.25)
    if rng.random() < 0.15:
        k = rng.randrange(0, 10)
        plan["events"] = [["fault", k, rng.choice(["jnan", "nan", "jnan"]), 0.5]]
    plan["limit"] = rng.choice(cell["limits"])
    plan["eager"] = rng.random() < 0.03
    if rng.random() < 0.05:
        plan["y0"][rng.randrange(cell["n"])] = rng.choice([float("inf"), float("nan")])
    return plan


def shrink(cell, plan):
    return common.shrink_plan(cell, plan) if np.all(np.isfinite(plan["y0"])) else []


@ft.lru_cache(maxsize=None)
def objective(n):
    fn = ev.make_fn(n, None, "vec", None)

    def fun(x, a, b):
        # Both arguments have to arrive, in order.
        return fn(x, {"sid": a - 2 * b})[0]

    return fun


@ft.lru_cache(maxsize=None)
def front(n, tol, norm, limit, has_limit):
    options = {}
    if norm is not None:
        options["norm"] = catalog.NORMS[norm]
    if has_limit:
        options["maxiter"] = limit
    kw = {} if tol is None else dict(tol=tol)

    def call(x0, a, b):
        return compat.minimize(
            objective(n), x0, (a, b), method="bfgs", options=options or None, **kw
        )

    return call, eqx.filter_jit(call)


def run(cell, plan):
    s, tr, out, complaints, model = common.judged(cell, plan, STEPS, keep_state=True)
    limit = plan["limit"]
    if limit is None and tr.ended is None:
        limit = STEPS
    cut = len(tr.steps) if limit is None else min(limit, len(tr.steps))
    code = tr.ended if cut == len(tr.steps) else None
    code = code or "nonlinear_max_steps_reached"
    if limit is None:
        out.probe("unlimited")
    if cell["tol"] is None:
        out.probe("default tolerance")
    if cell["norm"] is None:
        out.probe("default norm")
    out.history += f" limit={plan['limit']}"
    call, jitted = front(cell["n"], cell["tol"], cell["norm"], limit, limit is not None)
    s2 = common.session(cell, plan)
    ev.register(7, s2)
    try:
        res = (call if plan["eager"] else jitted)(
            jnp.asarray(np.asarray(plan["y0"], np.float64)), jnp.array(13), jnp.array(3)
        )
    finally:
        ev.unregister(7)
    out.log(s2)
    x, status = np.asarray(res.x), int(res.status)
    out.feed(x, status, np.asarray(res.fun), int(res.nfev), int(res.nit))
    out.probe(f"status {status}")
    want = {"successful": 0, "nonlinear_max_steps_reached": 1}.get(code, 3)
    if status != want:
        out.bad("status", f"status {status}, the run ends {code}")
    if bool(res.success) != (status == 0):
        out.bad("success", f"success {bool(res.success)} with status {status}")
    if len(s2.log) != cut:
        out.bad("requests", f"{len(s2.log)} requests, expected {cut} with limit {limit}")
    for a, b in zip(s.log, s2.log):
        if not np.allclose(a.y, b.y, rtol=1e-6, atol=1e-9, equal_nan=True):
            out.bad("requests", f"request {a.tok} at {b.y}, BFGS as documented asks at {a.y}")
            return out
    if int(res.nfev) != len(s2.log):
        out.bad("nfev", f"{int(res.nfev)} function calls reported, {len(s2.log)} made")
    letters = getattr(model, "history", [])[:cut]
    if not getattr(model, "gave_up", False) and len(letters) == cut and set(letters) <= set("AR"):
        took = letters.count("A")
        if (int(res.nit), int(res.njev)) != (took, took):
            out.bad("nit", f"{int(res.nit)} iterations and {int(res.njev)} gradients, {took} accepted")
        if letters and letters[-1] == "R":
            out.probe("last trial was rejected")
    if cut == 0:
        return out
    y = tr.steps[cut - 1].y_out
    if not np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True):
        out.bad("x", f"x is {x}, the run ends at {y}")
    fits = [
        e for e in s2.log
        if np.array_equal(e.y, x, equal_nan=True)
        and np.array_equal(e.v, np.asarray(res.fun), equal_nan=True)
        and np.array_equal(e.J, np.asarray(res.jac), equal_nan=True)
    ]
    if not fits:
        out.bad("answer", f"fun {np.asarray(res.fun)} and jac {np.asarray(res.jac)} were never given at {x}")
    H = np.asarray(res.hess_inv)
    try:
        H0 = np.asarray(tr.steps[cut - 1].state.f_info.hessian_inv.as_matrix())
    except AttributeError:
        H0 = None
    if H.shape != (cell["n"], cell["n"]):
        out.bad("hess_inv", f"hess_inv has shape {H.shape}")
    elif H0 is not None and np.all(np.isfinite(H0)):
        scale = max(1e-6, float(np.max(np.abs(H0))))
        if not np.allclose(H, H0, rtol=1e-4, atol=1e-4 * scale):
            out.bad("hess_inv", f"hess_inv {H.tolist()}, the run's is {H0.tolist()}")
    return out
