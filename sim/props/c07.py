"""Batched solves do not affect each other."""

import functools as ft
import json

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from .. import catalog, common, evaluator as ev, stepper
from ..harness import Outcome


ID = "C07"
CELLS = dict(quick=44, thorough=320)
LANES = 4
MUST = (
    "lanes of different lengths",
    "lanes with different codes",
    "a lane finished while another ran on",
    "a lane failed while another ran on",
    "a faulted lane among clean ones",
    "compared with the solve alone",
)
RULE = (
    "A run is one solver and a batch of four problems with their own starts, bounds and fault "
    "plans, solved in one vectorised call, then each in a batch of its own copies, then each "
    "alone. Distinct: different configuration, or different (code, step count, faults) of any "
    "lane. Non-trivial: two lanes differ in step count."
)
REAL = ["optimistix entry points and solvers under eqx.filter_vmap", "lineax", "jax batching"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
ORDER = ("qn", "gn", "root", "gd", "fp", "nm", "optax", "bisect", "golden", "best", "gn")


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "best":
        out = catalog.wrap_best(catalog.pick_cell(rng, rng.choice(["qn", "gn", "root", "fp", "gd"])))
    else:
        out = catalog.pick_cell(rng, group)
    spec = out["solver"].get("inner", out["solver"])
    if spec["name"] == "IndirectLevenbergMarquardt":
        # Raises, if its Jacobian is not finite: a known finding of C02.
        spec["name"] = "LevenbergMarquardt"
    if spec["name"] == "Bisection":
        # A lane without a sign change raises for the whole batch.
        spec["expand"] = False
    out["budget"] = rng.choice([2, 6, 15, 40, 40, 40])
    out["runs"] = 12
    return out


def gen(cell, rng):
    spec = cell["solver"].get("inner", cell["solver"])
    lanes, events = [], []
    clean = rng.random() < 0.25
    for k in range(LANES):
        plan = common.gen_plan(cell, rng, clean=1.0 if clean else 0.4)
        if spec["name"] == "Bisection":
            # Both ends must be answered with opposite signs.
            plan["events"] = [e for e in plan["events"] if e[1] > 2]
        if rng.random() < 0.1 and cell["group"] not in ("bisect", "golden"):
            plan["y0"][0] = float("nan")
        events += [["lane", k, e] for e in plan.pop("events")]
        lanes.append(plan)
    if rng.random() < 0.3:
        # Some lanes share a problem and differ in faults only.
        for k in range(1, LANES):
            if rng.random() < 0.5:
                lanes[k] = dict(lanes[0])
    return dict(lanes=lanes, events=events)


def shrink(cell, plan):
    for k in range(LANES):
        if "hole" in plan["lanes"][k]:
            lanes = [dict(x) for x in plan["lanes"]]
            lanes[k].pop("hole")
            yield dict(plan, lanes=lanes)
        if plan["lanes"][k] != plan["lanes"][(k + 1) % LANES]:
            lanes = [dict(x) for x in plan["lanes"]]
            lanes[k] = dict(lanes[(k + 1) % LANES])
            yield dict(plan, lanes=lanes)


def lane_plans(plan):
    out = [dict(x, events=[]) for x in plan["lanes"]]
    for _, k, e in plan["events"]:
        out[k]["events"].append(e)
    return out


def stacked(d, plans):
    def stack(key):
        return jax.tree_util.tree_map(lambda *xs: jnp.stack(xs), *[d.y(p[key]) for p in plans])

    return stack("y0"), {k: stack(k) for k in ("lower", "upper") if k in plans[0]}


@ft.lru_cache(maxsize=2)
def _batched(key):
    cell = json.loads(key)
    d = stepper.Driver(cell)

    @eqx.filter_jit
    @eqx.filter_vmap
    def go(y, sid, bounds):
        sol = stepper.solve(
            cell["kind"], d.raw_fn, d.solver, y, {"sid": sid}, dict(cell["opts"], **bounds),
            max_steps=cell["budget"], throw=False,
        )
        return sol.value, sol.result._value, sol.stats["num_steps"], sol.aux, eqx.filter(sol.state, eqx.is_array)

    return d, go


def batched(cell):
    keys = ("solver", "group", "kind", "n", "m", "ys", "os", "opts", "budget")
    return _batched(json.dumps({k: cell[k] for k in keys}, sort_keys=True))


def batch(cell, plans):
    d, go = batched(cell)
    sessions = [common.session(cell, p) for p in plans]
    for k, s in enumerate(sessions):
        ev.register(100 + k, s)
    try:
        y, bounds = stacked(d, plans)
        got = go(y, jnp.arange(100, 100 + len(plans)), bounds)
        jax.block_until_ready(got)
    finally:
        for k in range(len(plans)):
            ev.unregister(100 + k)
    value, code, steps, aux, state = got
    out = []
    for k in range(len(plans)):
        pick = lambda t: jax.tree_util.tree_map(lambda x: np.asarray(x)[k], t)
        out.append(
            dict(
                value=ev.flat(pick(value)),
                code=stepper._CODES[int(np.asarray(code)[k])],
                steps=int(np.asarray(steps)[k]),
                aux=stepper.aux_of(pick(aux)),
                state=[np.asarray(x) for x in jax.tree_util.tree_leaves(pick(state))],
                session=sessions[k],
            )
        )
    return out


def bitwise(a, b):
    if a["code"] != b["code"] or a["steps"] != b["steps"]:
        return f"{a['code']} in {a['steps']} steps, not {b['code']} in {b['steps']}"
    if a["value"].tobytes() != b["value"].tobytes():
        return f"value {a['value']}, not {b['value']}"
    if a["aux"][0] != b["aux"][0] or a["aux"][1].tobytes() != b["aux"][1].tobytes():
        return f"auxiliary output of request {a['aux'][0]}, not {b['aux'][0]}"
    for k, (x, y) in enumerate(zip(a["state"], b["state"])):
        if x.tobytes() != y.tobytes():
            return f"state array {k}: {x}, not {y}"
    return None


def run(cell, plan):
    out = Outcome()
    plans = lane_plans(plan)
    mixed = batch(cell, plans)
    for x in mixed:
        out.log(x["session"])
        out.feed(x["value"], x["code"], x["steps"], x["aux"][0], *x["state"])
    lengths = [x["steps"] for x in mixed]
    kinds = [x["code"] for x in mixed]
    out.steps = sum(lengths)
    out.trivial = len(set(lengths)) == 1
    out.history = repr(
        (cell["solver"], cell["n"], cell["budget"],
         [(x["code"], x["steps"], [e.fault for e in x["session"].log]) for x in mixed])
    )
    if len(set(lengths)) > 1:
        out.probe("lanes of different lengths")
    if len(set(kinds)) > 1:
        out.probe("lanes with different codes")
    for x in mixed:
        if x["steps"] < max(lengths):
            out.probe(
                "a lane finished while another ran on" if x["code"] == "successful"
                else "a lane failed while another ran on"
            )
    faulted = [bool(x["session"].fired) for x in mixed]
    if any(faulted) and not all(faulted):
        out.probe("a faulted lane among clean ones")
    # The same lane, in other company.
    for k in range(LANES):
        copies = batch(cell, [plans[k]] * LANES)
        why = bitwise(mixed[k], copies[k])
        if why:
            out.bad("company", f"lane {k} of {lengths} {kinds}: {why} among its own copies")
            return out
    # Alone.
    if cell["group"] == "nm":
        return out  # batching asks about both branches of a move, so faults fall elsewhere
    d, _ = batched(cell)
    for k in range(LANES):
        s = common.session(cell, plans[k])
        sol = d.solve(s, plans[k], cell["budget"])
        out.log(s)
        code, steps = stepper.code(sol.result), int(sol.stats["num_steps"])
        out.probe("compared with the solve alone")
        if code != mixed[k]["code"] or steps != mixed[k]["steps"]:
            out.bad(
                "alone",
                f"lane {k}: {mixed[k]['code']} in {mixed[k]['steps']} steps, alone {code} in {steps}",
            )
        elif not np.allclose(
            ev.flat(sol.value), mixed[k]["value"], rtol=1e-5, atol=1e-8, equal_nan=True
        ):
            out.bad("alone", f"lane {k}: value {mixed[k]['value']}, alone {ev.flat(sol.value)}")
        elif stepper.aux_of(sol.aux)[0] != mixed[k]["aux"][0] and steps:
            out.bad("alone", f"lane {k}: auxiliary output of request {mixed[k]['aux'][0]}, alone {stepper.aux_of(sol.aux)[0]}")
    return out
