"""Every failed solve is visible, with its own code."""

import numpy as np

from .. import catalog, common, evaluator as ev, scripted, stepper
from ..harness import Outcome


ID = "C02"
CELLS = dict(quick=80, thorough=480)
MUST = (
    "failed quietly",
    "failed with an error",
    "converted solver: success",
    "converted solver: failure",
    "converted solver: stopped away from a root",
    "scripted failure",
    "code nonlinear_max_steps_reached",
    "code nonfinite",
    "code nonlinear_divergence",
)
RULE = (
    "A run is one solver (real or scripted), entry point, problem and fault plan, solved with "
    "throwing disabled and enabled. Distinct: different configuration or entry point, or "
    "different sequence of (outcome, fault, stop flag, code). Non-trivial: at least one step "
    "was taken or a failure reported."
)
REAL = ["optimistix entry points, conversions, loop and solvers (compiled from /repo)", "lineax", "jax"]
STUB = [
    common.STUB_EVALUATOR,
    common.STUB_PROBLEM,
    "scripted solver (sim/scripted.py), in scripted runs only",
]
ORDER = (
    "conv", "qn", "script", "gn", "conv", "root", "script", "gd", "conv", "fp", "nm", "conv",
    "bisect", "golden", "optax", "root",
)
CONVERSIONS = (
    ("root", "gn"), ("root", "qn"), ("root", "nm"), ("lsq", "qn"), ("fp", "root"),
    ("fp", "gn"), ("fp", "qn"), ("root", "gd"), ("lsq", "nm"), ("fp", "nm"),
)
ZERO = [("root", "min"), ("root", "lsq"), ("fp", "min"), ("fp", "lsq")]
SCRIPTED = ZERO + [
    ("fp", "root"), ("lsq", "min"), ("min", "min"), ("lsq", "lsq"), ("root", "root"), ("fp", "fp"),
]


def shape(rng, kind, n, ys):
    if kind == "min":
        return None, None
    if kind == "lsq":
        m = n + rng.choice([0, 1])
        return m, rng.choice(ev.structs_for(m))
    return n, ys


def scripted_cell(rng, entry, kind, group="zero"):
    n = rng.choice([1, 2, 3])
    ys = rng.choice(ev.structs_for(n))
    m, os_ = shape(rng, entry, n, ys)
    return dict(
        solver=dict(
            name="Scripted", kind=kind, atol=rng.choice([1e-6, 0.5, 1.0, 2.0, 4.0, 100.0]),
            norm=rng.choice(["max", "rms", "two"]),
        ),
        group=group, kind=entry, n=n, m=m, ys=ys, os=os_, opts={},
        budget=rng.choice([0, 1, 2, 5, 8, 14, 14]), runs=36,
    )


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "script":
        entry, kind = SCRIPTED[(i // 8 * 2 + (i % 16 > 4)) % len(SCRIPTED)]
        return scripted_cell(rng, entry, kind, "script")
    if group == "conv":
        entry, inner = CONVERSIONS[(i // 16 * 4 + i % 16 // 4 + (i % 16 == 11)) % len(CONVERSIONS)]
        out = catalog.pick_cell(rng, inner)
        out["solver"]["box"] = None
        out["kind"] = entry
        out["m"], out["os"] = shape(rng, entry, out["n"], out["ys"])
        if out["n"] == out["m"] == 1 and "jac" in out["opts"]:
            out["opts"]["jac"] = "fwd"
        out["conv"] = [entry, inner]
    else:
        out = catalog.pick_cell(rng, group)
    out["budget"] = rng.choice([2, 5, 12, 40, 40])
    out["runs"] = 14
    return out


def gen_script(cell, rng):
    plan = dict(
        family=dict(min="quad", lsq="mild", root="mild", fp="contract")[cell["kind"]],
        seed=rng.randrange(1 << 30),
        y0=[common.r3(rng.uniform(-2, 2)) for _ in range(cell["n"])],
        events=scripted.gen_script(rng),
    )
    if (cell["kind"], cell["solver"]["kind"]) in ZERO and rng.random() < 0.6:
        start = rng.randrange(1, 6)
        plan["events"] += [["stop", k] for k in range(start, start + rng.choice([2, 9]))]
        if rng.random() < 0.4:
            # An unusable residual where the solver wants to stop.
            kind = rng.choice(["nan", "leafnan", "inf", "ninf", "zero"])
            plan["events"] += [["fault", k - 1, kind, 0.5] for k in (start, start + 1)]
            return plan
    if rng.random() < 0.5:
        plan["events"] += common.gen_faults(rng, 10, ("nan", "leafnan", "low", "high", "bias", "inf", "zero"))
    return plan


def gen(cell, rng):
    if cell["group"] == "script":
        return gen_script(cell, rng)
    plan = common.gen_plan(cell, rng, clean=0.25)
    if "conv" in cell:
        plan["family"] = dict(lsq="mild", root="mild", fp="contract")[cell["kind"]]
        if cell["kind"] == "lsq" and rng.random() < 0.5:
            plan["family"] = "noisy"
    if cell["group"] == "nm" and rng.random() < 0.25:
        plan["y0"] = [0.0 for _ in plan["y0"]]
    style = rng.choice(["asis", "asis", "nan", "jzero", "high", "jnan", "rising", "inf", "ninf"])
    if style not in ("asis", "rising") and cell["group"] != "bisect":
        start = rng.choice([0, 1, 2, 3, 6])
        plan["events"] = [["fault", k, style, 0.5] for k in range(start, start + 120)]
    elif style == "rising" and cell["group"] == "root":
        plan["events"] = [["fault", k, "garble", common.r3(rng.random())] for k in range(1, 40)]
    return plan


def shrink(cell, plan):
    return [] if cell["group"] == "script" else common.shrink_plan(cell, plan)


def thrown(out, code, err):
    """With throwing enabled: an error exactly if the code is a failure, saying why."""
    if code == "successful":
        if err is not None:
            out.bad("threw", f"success, but raised {type(err).__name__}: {str(err)[-300:]}")
        return
    if err is None:
        out.bad("silent", f"{code}, but nothing was raised")
        return
    out.probe("failed with an error")
    text = " ".join(str(err).split())
    want = " ".join(stepper.message(code).split())
    if want not in text:
        out.bad("message", f"{code} raised {type(err).__name__}: {text[-400:]}")


def catch(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def run(cell, plan):
    if cell["group"] == "script":
        return run_script(cell, plan)
    if "conv" in cell:
        return run_conv(cell, plan)
    s, tr, out, complaints, model = common.judged(cell, plan, cell["budget"])
    d = stepper.driver(cell)
    s2 = common.session(cell, plan)
    if tr is None:
        sol, err = catch(lambda: d.solve(s2, plan, cell["budget"]))
        if common.refused(cell, s):
            if err is None:
                out.bad("no-refusal", "bracket without a sign change was not refused")
        elif err is not None:
            out.bad("indirect-raise", f"raised with throwing disabled: {str(err)[:300]}")
        out.history = repr((cell["solver"], "refused"))
        return out
    common.history(out, cell, tr, model, f"budget={cell['budget']}")
    for i, label, msg in complaints:
        if label in ("stop", "code"):
            out.bad(label, f"step {i}: {msg}")
    sol = d.solve(s2, plan, cell["budget"])
    out.log(s2)
    code = stepper.code(sol.result)
    steps = int(sol.stats["num_steps"])
    out.feed(code, steps, ev.flat(sol.value))
    want = tr.ended or "nonlinear_max_steps_reached"
    if code != want:
        out.bad("code", f"solve reports {code}, expected {want} after {len(tr.steps)} steps")
    if steps != len(tr.steps):
        out.bad("steps", f"{steps} steps reported, {len(tr.steps)} taken")
    out.probe("code " + code)
    if code != "successful":
        out.probe("failed quietly")
        a, b = ev.flat(sol.value), ev.flat(tr.y)
        if not np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True):
            out.bad("partial", f"value {a}, the steps taken end at {b}")
    s3 = common.session(cell, plan)
    _, err = catch(lambda: d.solve(s3, plan, cell["budget"], throw=True))
    thrown(out, code, err)
    return out


def run_conv(cell, plan):
    out = Outcome()
    d = stepper.driver(cell)
    entry, inner = cell["conv"]
    spec = cell["solver"]
    s = common.session(cell, plan)
    sol, err = catch(lambda: d.solve(s, plan, cell["budget"], entry=entry))
    out.log(s)
    if err is not None:
        if common.indirect_raise(cell, s, err):
            out.bad("indirect-raise", f"raised with throwing disabled: {str(err)[:300]}")
            out.history = repr((spec, entry, "raised"))
            return out
        raise err
    code = stepper.code(sol.result)
    steps = int(sol.stats["num_steps"])
    tok, echo = stepper.aux_of(sol.aux)
    out.feed(code, steps, ev.flat(sol.value), tok)
    out.steps = steps
    out.history = repr((spec, entry, cell["n"], code, steps, [e.fault for e in s.log]))
    out.probe("code " + code)
    good = code == "successful"
    out.probe("converted solver: success" if good else "converted solver: failure")
    if not good and code == "nonlinear_max_steps_reached" and steps != cell["budget"]:
        out.bad("steps", f"out of steps after {steps} of {cell['budget']}")
    if steps > cell["budget"]:
        out.bad("steps", f"{steps} steps of {cell['budget']}")
    if good and not np.all(np.isfinite(ev.flat(sol.value))):
        out.bad("finite", "success with a value that is not finite")
    if entry in ("root", "fp") and inner != "root":
        # No success away from a root: the function's answer where the last step began.
        e = s.log[tok]
        f = e.v - e.y if entry == "fp" else e.v
        size = catalog.np_norm(spec["norm"], f)
        if good and not size < spec["atol"] * (1 + 1e-9):
            out.bad(
                "not-a-root",
                f"success after {steps} steps with residual {size} at {e.y}, "
                f"tolerance {spec['atol']}",
            )
        if not good and size >= spec["atol"]:
            out.probe("converted solver: stopped away from a root")
    elif entry == "fp":
        # Newton or chord on fn(y) - y, with its own stopping test. With a permanent
        # fault there is nothing to succeed on.
        e = s.log[tok]
        if good and not np.all(np.isfinite(e.v)):
            out.bad("not-a-root", f"success on the answer {e.v}")
    s2 = common.session(cell, plan)
    _, err = catch(lambda: d.solve(s2, plan, cell["budget"], entry=entry, throw=True))
    thrown(out, code, err)
    return out


def run_script(cell, plan, throw=True):
    out = Outcome()
    spec = cell["solver"]
    script = scripted.script_of(plan)
    fn = ev.make_fn(cell["n"], cell["m"], cell["ys"], cell["os"])
    solver = scripted.solver(spec["kind"], spec["atol"], catalog.NORMS[spec["norm"]])
    s = common.session(cell, plan)

    def go(session, throw):
        ev.register(1, session)
        try:
            return stepper.solve(
                cell["kind"], fn, solver, ev.pack(cell["ys"], cell["n"], plan["y0"]),
                {"sid": ev.jnp.array(1)}, scripted.options(script),
                max_steps=cell["budget"], throw=throw,
            )
        finally:
            ev.unregister(1)

    sol = go(s, False)
    out.log(s)
    for e in plan["events"]:
        if e[0] != "fault":
            out.faults[f"scripted-{e[0]}"] = out.faults.get(f"scripted-{e[0]}", 0) + 1
    close = []

    def near_zero(k):
        if k > len(s.log):
            return False
        e = s.log[k - 1]
        f = e.v - e.y if cell["kind"] == "fp" else e.v
        size = catalog.np_norm(spec["norm"], f)
        if not np.isfinite(size) and script["stop"][k]:
            out.probe("scripted stop on an unusable residual")
        if abs(size / spec["atol"] - 1) < 1e-9:
            close.append(k)
        return size < spec["atol"]

    zero = (cell["kind"], spec["kind"]) in ZERO
    k, code, y = scripted.model(script, plan["y0"], cell["budget"], near_zero if zero else None)
    got, steps = stepper.code(sol.result), int(sol.stats["num_steps"])
    out.feed(got, steps, ev.flat(sol.value))
    out.steps = steps
    out.trivial = k == 0 and code == "successful"
    out.history = repr((spec, cell["kind"], cell["budget"], k, code, plan["events"]))
    out.probe("scripted success" if code == "successful" else "scripted failure")
    if zero and any(script["stop"][1 : k + 1]):
        out.probe("scripted stop away from a root" if code != "successful" else "scripted stop at a root")
    if close:
        return out
    where = f"{cell['kind']} with a scripted {spec['kind']} solver"
    if (steps, got) != (k, code):
        out.bad("script", f"{where}: {steps} steps ending {got}, expected {k} ending {code}")
    if not np.array_equal(ev.flat(sol.value), y, equal_nan=True):
        out.bad("script-value", f"{where}: value {ev.flat(sol.value)}, expected {y}")
    if int(sol.stats["scripted"]) != k:
        out.bad("script-state", f"{where}: postprocess saw {int(sol.stats['scripted'])} of {k}")
    if throw:
        _, err = catch(lambda: go(common.session(cell, plan), True))
        thrown(out, got, err)
    return out
