"""A rejected trial leaves no trace, and accepted loss never rises."""

import numpy as np

from .. import catalog, common, stepper
from ..common import session


ID = "C04"
CELLS = dict(quick=56, thorough=500)
MUST = ("a trial was rejected", "acceptance after a rejection", "rejected answers rewritten")
RULE = (
    "A run is one solver configuration, one problem and one fault plan, stepped through the "
    "real solver, then repeated with the answers at all rejected trials replaced by other "
    "unusable ones. Distinct: different configuration or different sequence of "
    "(accepted/rejected, fault delivered, stop flag, code) per step. Non-trivial: at least "
    "one step was taken."
)
REAL = ["optimistix solvers, searches, descents (compiled from /repo)", "lineax", "jax"]
STUB = [common.STUB_EVALUATOR, common.STUB_PROBLEM]
LABELS = ("iterate", "leak", "rise", "aux")
STEPS = 45


def cell(rng, i, tier):
    out = catalog.pick_cell(rng, ("qn", "gn", "gd", "qn", "gn")[i % 5])
    while catalog.components(out["solver"])[0][0] == "lr" and rng.random() < 0.9:
        out = catalog.pick_cell(rng, ("qn", "gn", "gd", "qn", "gn")[i % 5])
    out["runs"] = 24
    return out


def gen(cell, rng):
    plan = common.gen_plan(cell, rng)
    plan["stop"] = rng.random() < 0.5
    plan["rewrite"] = rng.choice(["nan", "inf", "vnan"])
    return plan


shrink = common.shrink_plan


def run(cell, plan):
    s, tr, out, complaints, model = common.judged(
        cell, plan, STEPS, stop=plan["stop"], keep_state=True
    )
    if tr is None:
        return out
    for i, label, msg in complaints:
        if label in LABELS:
            out.bad(label, f"step {i}: {msg}")
    before = tr.state0
    for st in tr.steps:
        rejected = not np.array_equal(st.entries[0].y, st.y_out, equal_nan=True)
        info_a = getattr(before, "f_info", None)
        info_b = getattr(st.state, "f_info", None)
        if rejected and st.i > 0 and info_a is not None and info_b is not None:
            if not stepper.same(info_a, info_b):
                out.bad("info", f"step {st.i}: remembered function information changed")
        before = st.state
    # Whatever was answered at a trial that was rejected, as long as it is rejected,
    # the rest of the execution must be the same to the last bit.
    dropped = [
        st.entries[0].tok
        for st in tr.steps
        if st.i > 0
        and np.array_equal(st.y_in, st.y_out)
        and not np.array_equal(st.entries[0].y, st.y_out)
    ]
    search = catalog.components(cell["solver"])[0][0]
    if dropped and search != "lr" and np.all(np.isfinite([e.y for e in s.log])):
        out.probe("rejected answers rewritten")
        faults = common.faults_of(plan)
        # A stale answer repeats its predecessor, which is what changes here.
        if not any(k == "stale" for k, _ in faults.values()):
            finite = np.all(np.isfinite([e.loss for e in s.log if e.tok not in dropped]))
            kind = plan["rewrite"] if finite else "nan"  # inf - inf
            faults.update({k: (kind, 0.9) for k in dropped})
            s2 = session(cell, plan, faults)
            tr2 = stepper.driver(cell).run(s2, plan, STEPS, stop=plan["stop"])
            out.log(s2)
            for a, b in zip(s.log, s2.log):
                if a.y.tobytes() != b.y.tobytes():
                    out.bad(
                        "trace",
                        f"request {a.tok} moved from {a.y} to {b.y} when the answers at "
                        f"rejected trials {dropped} were changed",
                    )
                    break
            else:
                if len(s.log) != len(s2.log) or not stepper.same(tr.y, tr2.y):
                    out.bad("trace", "different end after changing rejected answers")
                elif [st.aux[0] for st in tr.steps] != [st.aux[0] for st in tr2.steps]:
                    out.bad("trace", "different aux after changing rejected answers")
    return out
