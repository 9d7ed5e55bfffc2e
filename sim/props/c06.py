"""A crashed solve resumes exactly from its saved state."""

import base64
import io
import json
import os
import subprocess
import sys

import equinox as eqx
import jax
import numpy as np

from .. import catalog, common, evaluator as ev, stepper
from ..harness import Outcome


ID = "C06"
CELLS = dict(quick=44, thorough=300)
MUST = (
    "crash before the first step",
    "crash after a rejection",
    "crash after a fault",
    "several crashes",
    "resumed in another process",
    "other work between crash and resumption",
    "run ended in success",
)
RULE = (
    "A run is one solver, problem, fault plan and set of crash points: stepped without a crash, "
    "then again with iterate and state turned to bytes at every crash point and read back into a "
    "solver built anew, in this process or another. Distinct: different configuration, crash "
    "points, or sequence of (what the step did, fault, stop flag, code). Non-trivial: at least "
    "one crash was survived and a step taken after it."
)
REAL = ["optimistix solvers through init/step/terminate/postprocess", "equinox serialisation", "lineax", "jax"]
STUB = [
    common.STUB_EVALUATOR,
    common.STUB_PROBLEM,
    "solve loop: the driver in sim/stepper.py (equivalence to the real loop is C03)",
    "stable storage: a byte string",
]
STEPS = 40
ORDER = ("qn", "gn", "gd", "nm", "root", "qn", "fp", "optax", "bisect", "golden", "best", "gn")


def cell(rng, i, tier):
    group = ORDER[i % len(ORDER)]
    if group == "best":
        out = catalog.wrap_best(catalog.pick_cell(rng, rng.choice(["qn", "gn", "root", "nm", "gd"])))
    else:
        out = catalog.pick_cell(rng, group)
    out["runs"] = 14
    # In some cells, some runs resume in a process which never saw the solve.
    out["other"] = i % 4 == 0
    return out


def gen(cell, rng):
    plan = common.gen_plan(cell, rng, clean=0.2)
    k = rng.choice([1, 1, 2, 3, 6])
    crashes = sorted(rng.sample(range(0, 24), k))
    plan["events"] = plan["events"] + [["crash", c] for c in crashes]
    # The process that resumes may have been doing something else.
    plan["between"] = common.gen_plan(cell, rng, 16, clean=0.1) if rng.random() < 0.4 else None
    plan["other"] = bool(cell["other"]) and rng.random() < 0.08
    return plan


def shrink(cell, plan):
    if plan["other"]:
        yield dict(plan, other=False)
    if plan["between"]:
        yield dict(plan, between=None)
    yield from common.shrink_plan(cell, plan)


def save(tree):
    buf = io.BytesIO()
    eqx.tree_serialise_leaves(buf, tree)
    return buf.getvalue()


def load(data, like):
    return eqx.tree_deserialise_leaves(io.BytesIO(data), like)


def anew(cell):
    """A driver which shares nothing with the one that crashed but compiled programs."""
    return stepper.Driver(cell, catalog._build(cell["solver"], None))


def skeleton(d, plan):
    """What the saved bytes are read into: shapes only, no request is made."""
    y = d.y(plan["y0"])
    args, options = d.args(1), d.options(plan)
    state, _, result = eqx.filter_eval_shape(
        lambda y, a: stepper._init.__wrapped__(
            d.fn, d.solver, y, a, options, d.f_struct, d.aux_struct
        ),
        y,
        args,
    )
    return y, state


class Leg:
    """Stepping from a saved point."""

    def __init__(self, session):
        self.session = session
        self.steps = []
        self.y = self.state = self.aux = self.result = None
        self.ended = None

    def go(self, d, plan, y, state, start, stop):
        args, options = d.args(1), d.options(plan)
        ev.register(1, self.session)
        try:
            for i in range(start, stop):
                y_in = ev.flat(y)
                y, state, aux, term, result = d.step(y, args, options, state)
                c = stepper.code(result) if np.all(np.isfinite(y_in)) else "nonfinite"
                self.steps.append((ev.flat(y), stepper.aux_of(aux)[0], bool(term), c))
                self.aux, self.result = aux, result
                if bool(term) or c != "successful":
                    self.ended = c
                    break
        finally:
            ev.unregister(1)
        self.y, self.state = y, state
        return self

    def finish(self, d, plan):
        if self.aux is None:
            return None
        ev.register(1, self.session)
        try:
            y, aux, stats = d.post(
                self.y, self.aux, d.args(1), d.options(plan), self.state, self.result
            )
        finally:
            ev.unregister(1)
        return [ev.flat(y), np.array(stepper.aux_of(aux)[0])] + [
            np.asarray(stats[k]) for k in sorted(stats)
        ]


def digest(arrays):
    import hashlib

    h = hashlib.sha256()
    for a in arrays:
        a = np.asarray(a)
        h.update(str((a.dtype, a.shape)).encode() + a.tobytes())
    return h.hexdigest()


def run(cell, plan):
    crashes = sorted({e[1] for e in plan["events"] if e[0] == "crash"})
    d = stepper.driver(cell)
    s, tr, out, _, model = judged(cell, plan)
    if tr is None:
        return out
    out.history += f" crashes={crashes}"
    n = len(tr.steps)
    # The run that is not interrupted, as one leg.
    whole = Leg(None)
    whole.steps = [(st.y_out, st.aux[0], st.terminate, st.code) for st in tr.steps]
    whole.session, whole.ended = s, tr.ended
    whole.y, whole.state, whole.aux = tr.y, tr.state, tr.aux
    whole.result = getattr(tr, "result", None)
    final = whole.finish(d, plan)
    # The run that crashes.
    if tr.init_terminate or tr.init_code != "successful":
        out.trivial = True
        return out
    s2 = common.session(cell, plan)
    ev.register(1, s2)
    try:
        y = d.y(plan["y0"])
        state, _, _ = d.init(y, d.args(1), d.options(plan))
    finally:
        ev.unregister(1)
    at, done, survived = 0, [], 0
    leg = None
    for c in [c for c in crashes if c < n] + [None]:
        stop = n if c is None else c
        if stop > at or leg is None:
            leg = Leg(s2).go(d, plan, y, state, at, stop)
            done += leg.steps
            y, state = leg.y, leg.state
            at = stop
        if c is None or leg.ended is not None:
            break
        if c == 0:
            out.probe("crash before the first step")
        elif model is not None and getattr(model, "history", [])[c - 1 : c] == ["R"]:
            out.probe("crash after a rejection")
        if c and any(e.fault for e in tr.steps[c - 1].entries):
            out.probe("crash after a fault")
        out.faults["crash"] = out.faults.get("crash", 0) + 1
        data = save((y, state))
        survived += 1
        if plan["other"]:
            return other(cell, plan, out, data, s2, c, tr, s, final)
        del y, state
        if plan["between"]:
            s3 = common.session(cell, plan["between"])
            common.attempt(cell, s3, out, lambda: d.run(s3, plan["between"], 9))
            out.log(s3)
            out.probe("other work between crash and resumption")
        d = anew(cell)
        y, state = load(data, skeleton(d, plan))
        out.feed(data)
    if survived > 1:
        out.probe("several crashes")
    out.trivial = survived == 0
    out.log(s2)
    for k, (a, b) in enumerate(zip(whole.steps, done)):
        if a[1:] != b[1:] or a[0].tobytes() != b[0].tobytes():
            out.bad("step", f"step {k}: {b} after crashes at {crashes}, {a} without")
            return out
    if len(done) != n or leg.ended != tr.ended:
        out.bad("length", f"{len(done)} steps, {leg.ended}; without crashes {n}, {tr.ended}")
    requests(out, s.log, s2.log)
    if leg.state is not None and not stepper.same(leg.state, tr.state):
        out.bad("state", "final states differ")
    mine = leg.finish(d, plan)
    if final is not None and mine is not None and digest(final) != digest(mine):
        out.bad("final", f"ends with {mine}, without crashes {final}")
    return out


def requests(out, a, b):
    for x, y in zip(a, b):
        if x.y.tobytes() != y.y.tobytes():
            out.bad("requests", f"request {x.tok} at {y.y}, without crashes at {x.y}")
            return
    if len(a) != len(b):
        out.bad("requests", f"{len(b)} requests, {len(a)} without crashes")


def judged(cell, plan):
    """The uninterrupted run, with the accept/reject history where there is a model."""
    if cell["solver"]["name"].startswith("Best"):
        s, tr, out = common.stepped(cell, plan, STEPS)
        if tr is not None:
            common.history(out, cell, tr)
            common.probes(out, tr, None)
        return s, tr, out, [], None
    return common.judged(cell, plan, STEPS)


# In another process.


def other(cell, plan, out, data, s2, c, tr, s, final):
    job = dict(
        cell=cell, plan=plan, at=c, data=base64.b64encode(data).decode(), n=s2.n,
        last=None if s2.last is None else [np.asarray(x).tolist() for x in s2.last],
    )
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run(
        [sys.executable, "-c", "from sim import env\nfrom sim.props import c06\nc06.child()"],
        input=json.dumps(job).encode(), capture_output=True, cwd=root, timeout=120,
    )
    if p.returncode:
        raise RuntimeError("resuming process failed: " + p.stderr.decode()[-1500:])
    got = json.loads(p.stdout.decode().strip().splitlines()[-1])
    out.probe("resumed in another process")
    want = [[digest([st.y_out]), st.aux[0], st.terminate, st.code] for st in tr.steps[c:]]
    for k, (a, b) in enumerate(zip(want, got["steps"])):
        if a != b:
            out.bad("step", f"step {c + k} after resuming in another process: {b}, not {a}")
            return out
    if len(want) != len(got["steps"]):
        out.bad("length", f"{len(got['steps'])} steps after resuming, not {len(want)}")
    if got["requests"] != digest([e.y for e in s.log[s2.n :]]):
        out.bad("requests", "other requests after resuming in another process")
    if got["state"] != digest(stepper.leaves(tr.state)):
        out.bad("state", "other final state after resuming in another process")
    if final is not None and got["final"] != digest(final):
        out.bad("final", "other outcome after resuming in another process")
    return out


def child():
    job = json.loads(sys.stdin.read())
    cell, plan = job["cell"], job["plan"]
    d = anew(cell)
    y, state = load(base64.b64decode(job["data"]), skeleton(d, plan))
    s = common.session(cell, plan)
    s.n = job["n"]
    if job["last"] is not None:
        s.last = tuple(np.array(x, np.float64) for x in job["last"])
    leg = Leg(s).go(d, plan, y, state, job["at"], STEPS)
    final = leg.finish(d, plan)
    print(
        json.dumps(
            dict(
                steps=[[digest([a]), b, c, e] for a, b, c, e in leg.steps],
                requests=digest([e.y for e in s.log]),
                state=digest(stepper.leaves(leg.state)),
                final=None if final is None else digest(final),
            )
        )
    )
