"""Success is reported only when it is true."""

import numpy as np

from .. import catalog, common, evaluator as ev, scripted, stepper
from ..harness import Outcome
from . import c02


ID = "C01"
CELLS = dict(quick=84, thorough=560)
MUST = (
    "run ended in success",
    "success despite faults",
    "permanent fault",
    "scripted success",
    "scripted failure",
    "scripted stop away from a root",
    "scripted stop at a root",
    "scripted stop on an unusable residual",
)
RULE = (
    "A run is one solver configuration, problem and fault plan, stepped by hand against a "
    "reference and then through the public entry point; or a scripted solver through the "
    "entry point against a model of the loop. Distinct: different configuration or "
    "different sequence of (what the step did, fault, stop flag, code). Non-trivial: at "
    "least one step was taken."
)
REAL = ["optimistix entry points, loop and solvers (compiled from /repo)", "lineax", "jax"]
STUB = [
    common.STUB_EVALUATOR,
    common.STUB_PROBLEM,
    "scripted solver (sim/scripted.py), in scripted runs only",
]
LABELS = ("stop", "code", "iterate", "trial", "requests", "leak")
STEPS = 40
ORDER = (
    "qn", "gn", "root", "gd", "bisect", "fp", "optax", "golden", "script", "qn", "gn", "nm", "zero",
    "boxed",
)


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "zero":
        # A converted solver's stopping test also asks for a residual close to zero.
        return c02.scripted_cell(rng, *rng.choice(c02.ZERO))
    if group == "script":
        kind = rng.choice(["min", "lsq", "root", "fp"])
        n = rng.choice([1, 2, 3])
        ys = rng.choice(ev.structs_for(n))
        m, os_ = (None, None) if kind == "min" else (n, ys)
        return dict(
            solver=dict(name="Scripted", kind=kind),
            group="script",
            kind=kind,
            n=n,
            m=m,
            ys=ys,
            os=os_,
            opts={},
            runs=40,
            budget=rng.choice([0, 1, 2, 3, 5, 14]),
        )
    out = catalog.pick_cell(rng, "root" if group == "boxed" else group)
    if group == "boxed":
        out["solver"]["box"] = ("both", "lower", "upper")[i // len(ORDER) % 3]
    # A search which is told "no" for long enough runs out of numbers.
    out["steps"] = rng.choice([STEPS, STEPS, 3 * STEPS])
    out["runs"] = 20
    return out


def gen(cell, rng):
    if cell["group"] == "zero":
        return c02.gen_script(cell, rng)
    if cell["group"] == "script":
        family = "quad" if cell["kind"] == "min" else "mild"
        return dict(
            family=family,
            seed=rng.randrange(1 << 30),
            y0=[common.r3(rng.uniform(-2, 2)) for _ in range(cell["n"])],
            events=scripted.gen_script(rng),
        )
    plan = common.gen_plan(cell, rng, clean=0.2)
    if rng.random() < (0.3 if cell["steps"] > STEPS else 0.15):
        start = rng.choice([1, 2, 5, 9])
        if cell["group"] == "bisect":
            start += 12
        kind = rng.choice(["nan", "nan", "vnan", "inf", "high"])
        plan["events"] = [["fault", k, kind, 0.5] for k in range(start, start + 600)]
        if kind == "nan":
            plan["forever"] = start
    return plan


def shrink(cell, plan):
    return [] if cell["group"] in ("script", "zero") else common.shrink_plan(cell, plan)


def run(cell, plan):
    if cell["group"] == "zero":
        return c02.run_script(cell, plan, throw=False)
    if cell["group"] == "script":
        return run_script(cell, plan)
    s, tr, out, complaints, model = common.judged(cell, plan, cell["steps"])
    if tr is None:
        return out
    for i, label, msg in complaints:
        if label in LABELS:
            out.bad(label, f"step {i}: {msg}")
    d = stepper.driver(cell)
    s2 = common.session(cell, plan)
    sol = common.attempt(cell, s2, out, lambda: d.solve(s2, plan, cell["steps"]))
    if sol is None:
        out.bad("solve", "solve refused what stepping accepted")
        return out
    out.log(s2)
    got = stepper.code(sol.result)
    value = ev.flat(sol.value)
    steps = int(sol.stats["num_steps"])
    out.feed(got, value, steps)
    want = tr.ended or "nonlinear_max_steps_reached"
    if got != want:
        out.bad("result", f"solve reports {got}, stepping says {want}")
    if steps != len(tr.steps):
        out.bad("steps", f"solve took {steps} steps, stepping {len(tr.steps)}")
    if got == "successful":
        if not np.all(np.isfinite(value)):
            out.bad("finite", f"success with value {value}")
        if not (tr.steps and tr.steps[-1].terminate):
            out.bad("early", "success without a stop flag")
        if any(st.terminate for st in tr.steps[:-1]):
            out.bad("late", "success after the first stop flag")
        if plan.get("forever") is not None:
            last = s2.log[-1]
            if last.tok >= plan["forever"]:
                out.bad("unusable", "success on answers that are all NaN")
    if plan.get("forever") is not None and s2.n > plan["forever"]:
        out.probe("permanent fault")
    return out


def run_script(cell, plan):
    out = Outcome()
    script = scripted.script_of(plan)
    s = common.session(cell, plan, faults={})
    ev.register(1, s)
    try:
        sol = stepper.solve(
            cell["kind"],
            ev.make_fn(cell["n"], cell["m"], cell["ys"], cell["os"]),
            scripted.SOLVER[cell["kind"]],
            ev.pack(cell["ys"], cell["n"], plan["y0"]),
            {"sid": ev.jnp.array(1)},
            scripted.options(script),
            max_steps=cell["budget"],
            throw=False,
        )
    finally:
        ev.unregister(1)
    out.log(s)
    k, code, y = scripted.model(script, plan["y0"], cell["budget"])
    got = stepper.code(sol.result)
    value = ev.flat(sol.value)
    steps = int(sol.stats["num_steps"])
    out.feed(got, value, steps)
    out.steps += steps
    out.trivial = steps == 0
    out.faults = {f"scripted-{e[0]}": 1 for e in plan["events"]}
    out.history = repr(("script", cell["kind"], cell["budget"], k, code, sorted(map(str, plan["events"]))))
    out.probe("scripted success" if code == "successful" else "scripted failure")
    if (steps, got) != (k, code):
        out.bad("script", f"{steps} steps ending {got}, expected {k} ending {code}")
    if not np.array_equal(value, y, equal_nan=True):
        out.bad("script-value", f"value {value}, expected {y}")
    if len(s.log) != k:
        out.bad("script-requests", f"{len(s.log)} requests for {k} steps")
    if k and stepper.aux_of(sol.aux)[0] != k - 1:
        out.bad("script-aux", "auxiliary output is not the last step's")
    if int(sol.stats["scripted"]) != k:
        out.bad("script-state", f"postprocess saw step {int(sol.stats['scripted'])} of {k}")
    return out
