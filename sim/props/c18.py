"""Verbose reports are exactly one per step and truthful."""

import contextlib
import functools as ft
import io
import json
import re

import jax
import numpy as np

from .. import catalog, common, evaluator as ev, stepper


ID = "C18"
CELLS = dict(quick=56, thorough=400)
MUST = (
    "a trial was rejected",
    "a fault was delivered during a step",
    "reports collected",
    "reports printed",
    "run cut off",
    "run ended in success",
    "no reports for no steps",
)
RULE = (
    "A run is one solver with reporting (to a callback, or printed), problem, budget and fault "
    "plan, solved with and without reporting. Distinct: different configuration or different "
    "sequence of (accept/reject, fault, stop flag, code). Non-trivial: at least one report."
)
REAL = ["optimistix solvers with verbose reporting, loop, entry points", "lineax", "jax debug callbacks"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM, "receiver of the reports"]
ORDER = ("qn", "gn", "optax", "qn", "gn", "gn", "best")


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "best":
        out = catalog.wrap_best(catalog.pick_cell(rng, rng.choice(["qn", "gn", "optax"])))
    else:
        out = catalog.pick_cell(rng, group)
    spec = out["solver"].get("inner", out["solver"])
    # Only the solvers' own constructors take True; others take a callable.
    builtin = not spec["name"].startswith("Custom") and spec.get("search") is None
    out["how"] = "print" if builtin and rng.random() < 0.3 else "callback"
    out["budget"] = rng.choice([0, 1, 3, 9, 30, 30, 30])
    out["runs"] = 18
    return out


def gen(cell, rng):
    return common.gen_plan(cell, rng, clean=0.2)


shrink = common.shrink_plan

REPORTS = []


def _receive(**values):
    REPORTS.append({k: np.asarray(v) if not isinstance(v, dict) else v for k, v in values.items()})


def collect(**kwargs):
    values = {}
    for k, (label, v) in kwargs.items():
        values[k] = jax.flatten_util.ravel_pytree(v)[0] if k.startswith("y") else v
    jax.debug.callback(_receive, **values)


@ft.lru_cache(maxsize=4)
def _reporting(key, how):
    cell = json.loads(key)
    return stepper.Driver(cell, catalog.build(cell["solver"], verbose=collect if how == "callback" else True))


def reporting(cell):
    keys = ("solver", "group", "kind", "n", "m", "ys", "os", "opts")
    return _reporting(json.dumps({k: cell[k] for k in keys}, sort_keys=True), cell["how"])


def loss(cell, e):
    with np.errstate(all="ignore"):
        return float(e.v) if cell["m"] is None else 0.5 * float(np.sum(e.v**2))


def same(a, b):
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def run(cell, plan):
    budget = cell["budget"]
    base = dict(cell, solver=cell["solver"].get("inner", cell["solver"]))
    s0, tr, out, _, model = common.judged(base, plan, budget)
    if tr is None:
        return out
    # Without reporting, and with.
    quiet = common.session(cell, plan)
    sol0 = common.attempt(cell, quiet, out, lambda: stepper.driver(cell).solve(quiet, plan, budget))
    d = reporting(cell)
    s = common.session(cell, plan)
    REPORTS.clear()
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        sol = common.attempt(cell, s, out, lambda: d.solve(s, plan, budget))
        jax.effects_barrier()
    out.log(s)
    if (sol is None) != (sol0 is None):
        out.bad("unchanged", "raised with reporting only, or without only")
    if sol is None or sol0 is None:
        return out
    steps = int(sol.stats["num_steps"])
    out.feed(ev.flat(sol.value), steps)
    if steps != int(sol0.stats["num_steps"]) or stepper.code(sol.result) != stepper.code(sol0.result):
        out.bad(
            "unchanged",
            f"{stepper.code(sol.result)} in {steps} with reporting, "
            f"{stepper.code(sol0.result)} in {int(sol0.stats['num_steps'])} without",
        )
        return out
    if not np.allclose(ev.flat(sol.value), ev.flat(sol0.value), rtol=1e-6, atol=1e-9, equal_nan=True):
        out.bad("unchanged", f"value {ev.flat(sol.value)} with reporting, {ev.flat(sol0.value)} without")
    if len(s.log) != len(quiet.log) or any(
        not np.allclose(a.y, b.y, rtol=1e-6, atol=1e-9, equal_nan=True) for a, b in zip(s.log, quiet.log)
    ):
        out.bad("unchanged", "different requests with and without reporting")
        return out
    if steps != len(tr.steps) or len(s.log) != len(s0.log):
        out.bad("unchanged", f"{steps} steps with reporting, {len(tr.steps)} stepped")
        return out
    if steps == 0:
        out.probe("no reports for no steps")
    asked = [[s.log[e.tok] for e in st.entries] for st in tr.steps]
    if cell["how"] == "print":
        printed(cell, out, text.getvalue(), asked)
    else:
        collected(cell, out, list(REPORTS), asked, tr, getattr(model, "history", []))
    return out


def printed(cell, out, text, asked):
    got = re.findall(r"Loss on this step: *([^,\n]+)", text)
    out.feed(text)
    if len(got) != len(asked):
        out.bad("count", f"{len(got)} printed reports of {len(asked)} steps")
        return
    out.probe("reports printed", len(got))
    for k, (g, es) in enumerate(zip(got, asked)):
        value = float(g.strip())
        if not any(same_text(value, loss(cell, e)) for e in es):
            out.bad("loss", f"step {k}: printed loss {g}, the function gave {[loss(cell, e) for e in es]}")
            return


def same_text(a, b):
    # Printed with fewer digits.
    return same(a, b) or abs(a - b) <= 1e-5 * max(abs(a), abs(b))


def collected(cell, out, reports, asked, tr, letters):
    if len(reports) != len(asked):
        out.bad("count", f"{len(reports)} reports of {len(asked)} steps")
        return
    out.probe("reports collected", len(reports))
    numbers = [int(r["num_steps"]) for r in reports if "num_steps" in r]
    if numbers and numbers != list(range(numbers[0], numbers[0] + len(reports))):
        out.bad("order", f"steps reported as {numbers}")
    if numbers and numbers[0] not in (0, 1):
        out.bad("order", f"first report is of step {numbers[0]}")
    # Counts and losses "so far" may be taken before or after the step, but consistently.
    exact = len(letters) == len(asked) and set(letters) <= set("AR")
    before, after = [], []
    took = since = 0
    at_loss = None
    for x, es in zip(letters if exact else [], asked):
        before.append((took, since, at_loss))
        took, since = (took + 1, 0) if x == "A" else (took, since + 1)
        at_loss = loss(cell, es[0]) if x == "A" else at_loss
        after.append((took, since, at_loss))
    if exact and reports and "accepted_steps" in reports[0]:
        got = [(int(r["accepted_steps"]), int(r["steps_since_acceptance"])) for r in reports]
        if got != [b[:2] for b in before] and got != [a[:2] for a in after]:
            out.bad("accepted", f"(accepted, since) reported {got} of {''.join(letters)}")
        out.probe("counts reported", len(got))
    if exact and reports and "loss_last_accepted_step" in reports[0]:
        for when in (before, after):
            if all(
                w[2] is None or same(float(r["loss_last_accepted_step"]), w[2])
                for r, w in zip(reports, when)
            ):
                break
        else:
            out.bad("last", f"losses of last accepted steps do not fit {''.join(letters)}")
    for k, (r, es, st) in enumerate(zip(reports, asked, tr.steps)):
        out.feed(*[r[x] for x in sorted(r)])
        y, x = r["y"], float(r["loss_this_step"])
        at = [e for e in es if np.array_equal(e.y, y, equal_nan=True)]
        if not at:
            out.bad("point", f"step {k}: reported {y}, the function was asked at {[e.y for e in es]}")
            return
        if not any(same(x, loss(cell, e)) for e in at):
            out.bad("loss", f"step {k}: reported loss {x}, the function gave {[loss(cell, e) for e in at]}")
            return
        last = r.get("y_last_accepted_step")
        if last is not None and not any(
            np.allclose(last, v, rtol=1e-6, atol=1e-9, equal_nan=True) for v in (st.y_in, st.y_out)
        ):
            out.bad("last", f"step {k}: reported last accepted {last}, it is {st.y_in} or {st.y_out}")
