"""Backpropagation through the checkpointed loop is correct."""

import equinox as eqx
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from .. import catalog, common, evaluator as ev, stepper
from ..harness import Outcome


ID = "C23"
CELLS = dict(quick=60, thorough=400)
MUST = (
    "differentiated a success",
    "differentiated a solve out of steps",
    "differentiated after faults",
    "fewer checkpoints than steps",
    "something was computed again",
    "the start has an influence",
    "the parameter has an influence",
    "what the function closes over has an influence",
)
RULE = (
    "A run is one solver, problem, step budget, number of checkpoints and fault plan: solved, solved "
    "again for starts and parameters close by, and solved while being differentiated. Distinct: "
    "different configuration, or different (code, step count, faults delivered). Non-trivial: at "
    "least one step was taken."
)
REAL = [
    "optimistix checkpointed adjoint, loop, solvers and entry points", "equinox checkpointed loop",
    "lineax", "jax",
]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
ORDER = ("qn", "gn", "root", "fp", "gd", "optax", "best", "conv", "gn", "qn")
CONV = (("root", "gn"), ("fp", "root"), ("lsq", "qn"), ("fp", "gn"))
# A constant added to an answer leaves its derivative right, and a large one has the trial
# rejected. A NaN may well make the derivative NaN, or the linear solves in it fail: then
# there is nothing to compare.
UNUSABLE = ("nan", "vnan", "inf", "leafnan")
KINDS = UNUSABLE + ("bias",) * 8
P = 2


class Memory(ev.Session):
    """After `until` requests, only what was asked before is answered."""

    until = None
    again = 0
    astray = None

    def evaluate(self, y):
        if self.until is None or self.n < self.until:
            return super().evaluate(y)
        y = np.array(y, np.float64)
        self.again += 1
        gap = np.array([np.max(np.abs(e.y - y) / (1 + np.abs(e.y))) for e in self.log])
        gap[np.isnan(gap)] = np.inf
        k = int(np.argmin(gap)) if not np.any(np.isnan(y)) else None
        if k is None or not gap[k] < 1e-7:
            twin = [e for e in self.log if np.array_equal(e.y, y, equal_nan=True)]
            if not twin:
                self.astray = self.astray if self.astray is not None else y
                v, J = self.problem.ev(y)
                return np.asarray(v, np.float64), np.asarray(J, np.float64), -1
            e = twin[0]
        else:
            e = self.log[k]
        return e.v, e.J, e.tok


def unusable(log):
    return any(
        e.fault in UNUSABLE or not all(np.all(np.isfinite(x)) for x in (e.y, e.v, e.J)) for e in log
    )


def landed(cell, log):
    """Whether a request was made exactly at a solution. A step of length zero is taken
    from there: its derivative through the norms of the steps is not defined."""
    if cell["kind"] == "fp":
        return any(np.array_equal(e.v, e.y) for e in log)
    if cell["m"] is None:
        return any(not np.any(e.J) for e in log)
    return any(not np.any(e.J.T @ e.v) for e in log)


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "best":
        out = catalog.wrap_best(catalog.pick_cell(rng, rng.choice(["qn", "gn", "root", "fp"])))
    elif group == "conv":
        entry, inner = rng.choice(CONV)
        out = catalog.pick_cell(rng, inner)
        out["solver"]["box"] = None
        out["kind"] = entry
        out["m"], out["os"] = out["n"], out["ys"]
        if out["n"] == 1 and "jac" in out["opts"]:
            out["opts"]["jac"] = "fwd"
        out["conv"] = True
    else:
        out = catalog.pick_cell(rng, group)
    out["budget"] = rng.choice([1, 3, 6, 12, 12, 20])
    out["checkpoints"] = rng.choice([None, 1, 2, 3, 5])
    out["runs"] = 16
    out["closure"] = rng.random() < 0.35
    return out


def gen(cell, rng):
    plan = common.gen_plan(
        cell, rng, min(30, 2 * cell["budget"] + 3), kinds=KINDS, clean=0.2, holes=0.0, at_end=0.0,
    )
    for e in plan["events"]:
        if e[2] == "bias" and rng.random() < 0.6:
            e[3] = common.r3(rng.choice([-1, 1, 1, 1]) * 10 ** rng.uniform(0, 3))
    if cell.get("conv"):
        plan["family"] = dict(lsq="mild", root="mild", fp="contract")[cell["kind"]]
    rows = cell["n"] if cell["m"] is None else cell["m"]
    r = lambda k: [common.r3(rng.uniform(-1, 1)) for _ in range(k)]
    plan.update(C=[r(P) for _ in range(rows)], E=r(P), t=r(P), ty=r(cell["n"]), u=r(cell["n"]))
    return plan


shrink = common.shrink_plan


def _solve(cell, solver, y0, theta, sid, CE, options, adjoint):
    args = {"sid": sid, "theta": theta, "C": CE[0], "E": CE[1]}
    fn = ev.make_smooth_fn(cell["n"], cell["m"], cell["ys"], cell["os"])
    if cell["closure"]:
        fn, args = ev.closing_over(fn, args)
    return stepper.solve(
        cell["kind"], fn, solver, y0, args, options,
        max_steps=cell["budget"], throw=False, adjoint=adjoint,
    )


def programs(cell, solver):
    @eqx.filter_jit
    def plain(y0, theta, sid, CE, options):
        return _solve(cell, solver, y0, theta, sid, CE, options, optx.ImplicitAdjoint())

    @eqx.filter_jit
    def diff(y0, theta, sid, CE, options, ty):
        def f(x):
            sol = _solve(
                cell, solver, *x, sid, CE, options,
                optx.RecursiveCheckpointAdjoint(checkpoints=cell["checkpoints"]),
            )
            return sol.value, sol

        _, pull, sol = eqx.filter_vjp(f, (y0, theta), has_aux=True)
        return sol, *pull(ty)[0]

    return plain, diff


_PROGRAMS = {}


def run(cell, plan):
    out = Outcome()
    d = stepper.driver(cell)
    key = id(d), cell["budget"], cell["checkpoints"], cell["closure"]
    if key not in _PROGRAMS:
        _PROGRAMS[key] = programs(cell, d.solver)
    plain, diff = _PROGRAMS[key]
    options = d.options(plan)
    CE, sid = (jnp.array(plan["C"]), jnp.array(plan["E"])), jnp.array(1)
    t, u, ty = (np.array(plan[k]) for k in ("t", "u", "ty"))
    y0 = np.array(plan["y0"])

    def go(s, f):
        ev.register(1, s)
        s.mark = "solve"
        try:
            return common.attempt(cell, s, out, f)
        finally:
            ev.unregister(1)

    def at(hy, ht):
        s = common.session(cell, plan)
        sol = go(s, lambda: plain(d.y(y0 + hy * u), jnp.array(ht * t), sid, CE, options))
        if sol is None:
            return s, None, None, None
        return s, stepper.code(sol.result), int(sol.stats["num_steps"]), ev.flat(sol.value)

    s, code, steps, y = at(0.0, 0.0)
    out.log(s)
    if code is None:
        out.history = repr((cell["solver"], "refused"))
        return out
    out.feed(code, steps, y)
    out.steps = steps
    out.trivial = steps == 0
    out.history = repr((cell["solver"], cell["n"], code, steps, [e.fault for e in s.log]))
    seen = {}
    for e in s.log:
        if seen.setdefault(e.y.tobytes(), (e.v.tobytes(), e.J.tobytes())) != (e.v.tobytes(), e.J.tobytes()):
            out.probe("asked twice and told different things")
            return out
    if landed(cell, s.log):
        out.probe("exactly at a solution")
        return out
    s2 = Memory(s.problem, common.faults_of(plan))
    s2.until = s.n
    try:
        got = go(s2, lambda: diff(d.y(y0), jnp.zeros(P), sid, CE, options, d.y(ty)))
    except Exception as e:
        if unusable(s.log):
            out.probe("raised after an unusable answer")
            return out
        out.bad("raised", f"differentiating raised {type(e).__name__}: {str(e)[-300:]}")
        return out
    out.log(s2)
    sol2, cy, ct = got
    code2, steps2, y2 = stepper.code(sol2.result), int(sol2.stats["num_steps"]), ev.flat(sol2.value)
    cy = np.zeros(cell["n"]) if cy is None else ev.flat(cy)
    ct = np.zeros(P) if ct is None else np.asarray(ct)
    out.feed(code2, steps2, y2, cy, ct)
    if (code2, steps2) != (code, steps):
        out.bad("result", f"{code2} in {steps2} steps when differentiated, not {code} in {steps}")
        return out
    if not np.allclose(y2, y, rtol=1e-6, atol=1e-9, equal_nan=True):
        out.bad("value", f"{y2} when differentiated, not {y}")
        return out
    if s2.astray is not None:
        out.bad("recomputed", f"the backward pass asked at {s2.astray}, the forward pass never did")
    if s2.again:
        out.probe("something was computed again")
    if cell["checkpoints"] is not None and cell["checkpoints"] < steps:
        out.probe("fewer checkpoints than steps")
    if not np.all(np.isfinite(y)):
        out.probe("ended at a point which is not finite")
        return out
    if any(np.any(np.abs(e.y) > 1e6) for e in s.log):
        out.probe("ran away")
        return out
    if cell["solver"]["name"].startswith("Best") and np.allclose(y, y0, rtol=0, atol=1e-3):
        # Whether the start or a later iterate was returned depends on rounding.
        out.probe("best next to the start")
        if not np.array_equal(y, y0):
            return out
    for name, hy, ht, dot in (
        ("the start", 1.0, 0.0, float(cy @ u)), ("the parameter", 0.0, 1.0, float(ct @ t)),
    ):
        if not np.isfinite(dot) and unusable(s.log):
            out.probe("no derivative after an unusable answer")
            continue
        slopes = []
        for h in (1e-4, 5e-5):
            a, b = at(h * hy, h * ht), at(-h * hy, -h * ht)
            if any((x[1], x[2], x[0].n) != (code, steps, s.n) for x in (a, b)):
                break
            slopes.append(float(ty @ (a[3] - b[3])) / (2 * h))
            kink = abs(float(ty @ (a[3] + b[3] - 2 * y))) / h
        else:
            size = np.abs(slopes[0]) + 1e-3
            if not (abs(slopes[0] - slopes[1]) < 1e-4 * size and kink < 1e-2 * size):
                out.probe("not smooth here")
                continue
            # The inner root find of these stops at a tolerance, and is differentiated as
            # if it had found the root.
            rough = any(w in repr(cell["solver"]) for w in ("Indirect", "indirect"))
            if not abs(dot - slopes[1]) < (0.1 if rough else 3e-3) * size:
                out.bad("derivative", f"{dot} in {name}, nearby solves say {slopes[1]} ({slopes[0]})")
            if abs(slopes[1]) > 1e-3 and ht and cell["closure"]:
                out.probe("what the function closes over has an influence")
            if abs(slopes[1]) > 1e-3:
                out.probe(f"{name} has an influence")
            if code == "successful":
                out.probe("differentiated a success")
            elif code == "nonlinear_max_steps_reached":
                out.probe("differentiated a solve out of steps")
            if any(e.fault for e in s.log):
                out.probe("differentiated after faults")
            continue
        out.probe("another course nearby")
    return out
