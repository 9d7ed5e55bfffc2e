"""A failing component stops the solve with that component's code.

Searches, descents and linear solvers are the real ones, wrapped: after doing its work
each asks the host whether it is to report a failure, naming no step itself. The host
answers from the plan by which request was answered last, and keeps a record of every
failure it handed out.
"""

from typing import Any

import equinox as eqx
import jax
import jax.flatten_util as jfu
import jax.numpy as jnp
import lineax as lx
import numpy as np
import optimistix as optx

from .. import catalog, common, evaluator as ev, stepper
from ..harness import Outcome


ID = "C13"
CELLS = dict(quick=48, thorough=360)
MUST = (
    "a search failed",
    "a descent failed",
    "a linear solve failed",
    "two components failed in one step",
    "failed in the first step",
    "failed in a step which met the stopping test",
    "failed in the last step of the budget",
    "failed on a rejected trial",
)
RULE = (
    "A run is one solver, problem and plan saying which component fails, at which request and with "
    "which code. Distinct: different configuration, or different sequence of per-step (faults, stop "
    "flag, code) and failing components. Non-trivial: at least one component failed."
)
REAL = ["optimistix solvers, descents, searches, loop and entry points", "equinox loops", "lineax", "jax"]
STUB = [
    common.STUB_EVALUATOR,
    common.STUB_PROBLEM,
    "wrappers around real searches, descents and linear solvers which add failures on demand",
]
ORDER = ("qn", "gn", "root", "gd", "gn", "qn", "conv", "gn", "best", "root", "gn", "qn")
STEPS = 14
CODES = [c for c in stepper._CODES.values() if c != "successful"]
LINEAR = [c for c in lx.RESULTS._name_to_item if c != "successful"]


class Desk:
    """Who is to fail now, and who did."""

    def __init__(self, session, plan):
        self.session = session
        self.plan = plan
        self.done = []  # (component, request, mark, code)

    def ask(self, who, finite):
        at = self.session.n - 1
        c = self.plan.get((who, at))
        if c is None:
            return 0
        # lineax itself reports a singular solve of a non-finite vector like this.
        said = "nonfinite_input" if who == "linear" and c == "singular" and not finite else c
        self.done.append((who, at, self.session.mark, said))
        self.session._fire(f"{who} reports failure")
        return 1 + (LINEAR if who == "linear" else CODES).index(c)


DESK: list = [None]


def _ask(who, enum, names, *operands):
    """A result item, decided on the host. The operands tie the question to the step."""

    def host(first, _):
        return np.int64(DESK[0].ask(who, bool(np.all(np.isfinite(first)))))

    first = jfu.ravel_pytree(operands[0])[0]
    flat = jfu.ravel_pytree(eqx.filter(operands, eqx.is_array))[0]
    k = jax.pure_callback(
        host, jax.ShapeDtypeStruct((), jnp.int64), first, flat, vmap_method="sequential"
    )
    item = enum.successful
    for i, name in enumerate(names):
        item = enum.where(k == i + 1, getattr(enum, name), item)
    return k, item


def _tied(k, tree):
    """`tree`, whose computation includes the question: an unused failure was asked for."""
    return jax.tree_util.tree_map(lambda x: jnp.where(k < 0, jnp.nan, x), tree)


class Search(optx.AbstractSearch):
    inner: Any
    _needs_grad_at_y_eval: bool = eqx.field(static=True, default=False)

    def init(self, y, f_info_struct):
        return self.inner.init(y, f_info_struct)

    def step(self, first_step, y, y_eval, f_info, f_eval_info, state):
        step_size, accept, result, state = self.inner.step(
            first_step, y, y_eval, f_info, f_eval_info, state
        )
        k, item = _ask("search", optx.RESULTS, CODES, y_eval, f_eval_info.as_min(), step_size)
        return _tied(k, step_size), accept, optx.RESULTS.where(k > 0, item, result), state


class Descent(optx.AbstractDescent):
    inner: Any
    # Does the queries, if its linear solver is to fail in those only.
    asker: Any = None

    def init(self, y, f_info_struct):
        return self.inner.init(y, f_info_struct)

    def query(self, y, f_info, state):
        return (self.inner if self.asker is None else self.asker).query(y, f_info, state)

    def step(self, step_size, state):
        y_diff, result = self.inner.step(step_size, state)
        k, item = _ask("descent", optx.RESULTS, CODES, y_diff, step_size)
        return _tied(k, y_diff), optx.RESULTS.where(k > 0, item, result)


class Linear(lx.AbstractLinearSolver):
    inner: Any

    def init(self, operator, options):
        return self.inner.init(operator, options)

    def compute(self, state, vector, options):
        solution, result, stats = self.inner.compute(state, vector, options)
        k, item = _ask("linear", lx.RESULTS, LINEAR, vector, solution)
        return _tied(k, solution), lx.RESULTS.where(k > 0, item, result), stats

    def transpose(self, state, options):
        return self.inner.transpose(state, options)

    def conj(self, state, options):
        return self.inner.conj(state, options)

    def assume_full_rank(self):
        return self.inner.assume_full_rank()


def search_of(spec):
    return Search(catalog.build_search(spec))


def descent_of(spec):
    kind, kw = spec
    if kind == "newton":
        return Descent(optx.NewtonDescent(linear_solver=Linear(catalog._linear(kw.get("ls")))))
    if kind == "damped":
        return Descent(
            optx.DampedNewtonDescent(linear_solver=Linear(catalog._linear(kw.get("ls", "qr"))))
        )
    if kind == "dogleg":
        return Descent(
            optx.DoglegDescent(
                linear_solver=Linear(catalog._linear(kw.get("ls"))),
                trust_region_norm=catalog.NORMS[kw.get("norm", "two")],
            )
        )
    if kind == "indirect":
        asker = optx.IndirectDampedNewtonDescent(
            linear_solver=Linear(lx.AutoLinearSolver(well_posed=False))
        )
        return Descent(optx.IndirectDampedNewtonDescent(), asker)
    return Descent(catalog.build_descent(spec))


def build(spec):
    name = spec["name"]
    if name.startswith("BestSoFar"):
        return getattr(optx, name)(build(spec["inner"]))
    kw = dict(rtol=spec["rtol"], atol=spec["atol"], norm=catalog.NORMS[spec["norm"]])
    if name in ("Newton", "Chord"):
        return getattr(optx, name)(
            kappa=spec["kappa"],
            cauchy_termination=spec["cauchy"],
            linear_solver=Linear(catalog._linear(spec.get("ls"))),
            **kw,
        )
    if name in ("GaussNewton", "LevenbergMarquardt", "Dogleg") and spec.get("plain"):
        ls = Linear(catalog._linear("qr" if name == "LevenbergMarquardt" else None))
        return getattr(optx, name)(linear_solver=ls, **kw)
    s, d = catalog.components(spec)
    kw.update(search=search_of(s), descent=descent_of(d))
    if name in ("BFGS", "DFP", "LBFGS"):
        cls = getattr(catalog, f"Custom{name}")
        kw["use_inverse"] = spec["inv"]
        if name == "LBFGS":
            kw["history_length"] = spec["hist"]
        return cls(**kw)
    if spec["group"] == "gd":
        return catalog.CustomGD(**kw)
    return catalog.CustomGN(**kw)


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "best":
        out = catalog.pick_cell(rng, rng.choice(["qn", "gn", "root"]))
    elif group == "conv":
        entry, inner = rng.choice((("root", "gn"), ("lsq", "qn"), ("fp", "root"), ("root", "qn")))
        out = catalog.pick_cell(rng, inner)
        out["solver"]["box"] = None
        out["conv"] = entry
        out["kind"] = entry
        out["m"], out["os"] = out["n"], out["ys"]
        if out["n"] == 1 and "jac" in out["opts"]:
            out["opts"]["jac"] = "fwd"
    else:
        out = catalog.pick_cell(rng, group)
    if out["group"] == "root":
        out["solver"]["ls"] = rng.choice([None, "lu", "svd"])
    if out["group"] == "gn":
        out["solver"]["plain"] = rng.random() < 0.5
    if group == "best":
        out = catalog.wrap_best(out)
    out["runs"] = 16
    return out


def parts(spec):
    """Components which can fail."""
    spec = spec.get("inner", spec)
    if spec["name"] in ("Newton", "Chord"):
        return ["linear"]
    if spec.get("plain") and spec["name"] in ("GaussNewton", "LevenbergMarquardt", "Dogleg"):
        return ["linear"]
    d = catalog.components(spec)[1][0]
    return ["search", "descent"] + (["linear"] if d in ("newton", "damped", "dogleg", "indirect") else [])


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, horizon=STEPS, clean=0.5, holes=0.05)
    if cell.get("conv"):
        plan["family"] = dict(lsq="mild", root="mild", fp="contract")[cell["kind"]]
    who = parts(cell["solver"])
    fails = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        at = rng.choice([0, 1, 2, 3, rng.randrange(STEPS), rng.randrange(STEPS), "last"])
        w = rng.choice(who)
        fails.append(["fail", w, at, rng.choice(LINEAR if w == "linear" else CODES)])
        if rng.random() < 0.3 and len(who) > 1:
            w = rng.choice([x for x in who if x != w])
            fails.append(["fail", w, at, rng.choice(LINEAR if w == "linear" else CODES)])
    plan["events"] += fails
    plan["slack"] = rng.choice([0, 0, 1, 5])
    plan["throw"] = rng.random() < 0.25
    return plan


shrink = common.shrink_plan


_DRIVERS: dict = {}


def driver(cell):
    import json

    key = json.dumps({k: cell[k] for k in ("solver", "kind", "n", "m", "ys", "os", "opts")}, sort_keys=True)
    if key not in _DRIVERS:
        _DRIVERS.clear()
        _DRIVERS[key] = stepper.Driver(cell, build(cell["solver"]))
    return _DRIVERS[key]


def run(cell, plan):
    out = Outcome()
    d = driver(cell)
    conv = cell.get("conv")
    fails = [e[1:] for e in plan["events"] if e[0] == "fail"]
    last = None

    def desk(s):
        todo = {(w, last if at == "last" else at): c for w, at, c in fails}
        DESK[0] = Desk(s, todo)
        return DESK[0]

    if any(at == "last" for _, at, _ in fails):
        # Where would this run have ended of itself?
        s = common.session(cell, plan)
        DESK[0] = Desk(s, {})
        common.attempt(cell, s, out, lambda: d.solve(s, plan, STEPS))
        out.log(s)
        last = s.n - 1

    tr = None
    if not conv:
        s = common.session(cell, plan)
        k = desk(s)
        tr = d.run(s, plan, STEPS)
        out.log(s)
        for st in tr.steps:
            out.feed(st.y_out, st.terminate, st.code)
        out.feed(tr.ended)
        judge_stepped(out, tr, k)
    budget = STEPS
    if tr is not None and k.done:
        budget = len(tr.steps) + plan["slack"]
    s2 = common.session(cell, plan)
    k2 = desk(s2)
    error = None
    sol = None
    try:
        sol = d.solve(s2, plan, budget, throw=plan["throw"])
        got = stepper.code(sol.result)
    except Exception as e:
        if not plan["throw"] or ev.HARNESS_ERRORS:
            raise
        error = str(e)
        got = None
    out.log(s2)
    out.feed(got, len(s2.log))
    judge_solve(out, sol, got, error, s2, k2, tr)
    marks = [] if tr is None else [
        "".join(sorted({e.fault or "-" for e in st.entries})) + f"{st.terminate}{st.code}" for st in tr.steps
    ]
    done = k2.done
    out.history = repr((cell["solver"], cell["n"], marks, [(w, at, c) for w, at, _, c in done]))
    out.steps += 0 if tr is None else len(tr.steps)
    out.steps += 0 if sol is None else int(sol.stats["num_steps"])
    out.trivial = not done
    for w, *_ in done:
        out.probe(dict(search="a search failed", descent="a descent failed", linear="a linear solve failed")[w])
    if done:
        if len(done) > 1:
            out.probe("two components failed in one step")
        if plan["slack"] == 0 and not conv:
            out.probe("failed in the last step of the budget")
        if tr is not None and len(tr.steps) == 1:
            out.probe("failed in the first step")
        if tr is not None and tr.steps and tr.steps[-1].terminate:
            out.probe("failed in a step which met the stopping test")
        if tr is not None and len(tr.steps) > 1 and any(w != "linear" for w, *_ in done):
            state = getattr(tr.state, "state", tr.state)
            n_acc = getattr(state, "num_accepted_steps", None)
            if n_acc is not None and int(n_acc) < len(tr.steps):
                out.probe("failed on a rejected trial")
        if fails and last is not None and done[0][1] == last:
            out.probe("failed where the run would have ended anyway")
    return out


def judge_stepped(out, tr, k):
    if not k.done:
        return
    who, at, mark, _ = k.done[0]
    codes = {c for _, _, m, c in k.done if m == mark}
    names = sorted({w for w, _, m, _ in k.done if m == mark})
    where = f"{' and '.join(names)} failed in step {mark} with {sorted(codes)}"
    if mark == "init":
        return
    if len(tr.steps) - 1 != mark:
        out.bad("continued", f"{where}, but the run went on to step {len(tr.steps) - 1}")
        return
    if not np.all(np.isfinite(tr.steps[mark].y_in)):
        # The solve has failed before the component did: either may be reported.
        codes = codes | {"nonfinite"}
    if tr.steps[mark].code not in codes:
        out.bad("code", f"{where}, but the step's code is {tr.steps[mark].code}")


def judge_solve(out, sol, got, error, s, k, tr):
    if not k.done:
        return
    at = k.done[0][1]
    codes = {c for _, a, _, c in k.done if a == at}
    names = sorted({w for w, a, _, _ in k.done if a == at})
    where = f"{' and '.join(names)} failed at request {at} with {sorted(codes)}"
    if s.n - 1 != at:
        out.bad("continued", f"{where}, but {s.n - 1 - at} more requests were made")
    if not np.all(np.isfinite(s.log[at].y if tr is None else tr.steps[-1].y_in)):
        codes = codes | {"nonfinite"}
    if error is not None:
        if not any(stepper.message(c)[:40] in error for c in codes):
            out.bad("message", f"{where}, but the exception says {error[:200]!r}")
        return
    if got not in codes:
        out.bad("code", f"{where}, but the solve reports {got}")
    steps = int(sol.stats["num_steps"])
    if tr is not None and steps != len(tr.steps):
        out.bad("steps", f"{where}, but {steps} steps are reported, not {len(tr.steps)}")
