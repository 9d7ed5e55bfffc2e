"""Concurrent, repeated and aborted solves are independent."""

import random
import threading

import jax

from .. import catalog, common, evaluator as ev, stepper
from ..harness import Outcome


ID = "C08"
CELLS = dict(quick=40, thorough=260)
MUST = (
    "solves interleaved in threads",
    "a solve was killed",
    "a solve was killed among running ones",
    "solved again after a kill",
    "solved again",
    "solved with nothing cached",
    "stepped by hand in between",
)
RULE = (
    "A run is a seeded sequence of operations on a pool of solves: alone, again, killed by an "
    "exception at a chosen request, several at once in threads whose every request waits for the "
    "scheduler's turn, with all compiled programs dropped. Distinct: different pool, operations, or "
    "order of turns. Non-trivial: at least two solves were interleaved or one was killed."
)
REAL = ["optimistix entry points and solvers", "jax dispatch, callbacks and threads", "lineax"]
STUB = [
    common.STUB_EVALUATOR,
    common.STUB_PROBLEM,
    "scheduler: a thread runs from one request to the next, and the seed picks which",
]
ORDER = ("qn", "gn", "root", "gd", "fp", "nm", "optax", "bisect", "golden", "best")
POOL = 3
ISOLATED = True  # what a process has done before must not matter either


def cell(rng, i, tier):
    subs = []
    for k in range(POOL):
        group = ORDER[(i + k * 3) % len(ORDER)] if k < 2 else rng.choice(ORDER)
        if group == "best":
            sub = catalog.wrap_best(catalog.pick_cell(rng, rng.choice(["qn", "gn", "root", "fp"])))
        else:
            sub = catalog.pick_cell(rng, group)
        spec = sub["solver"].get("inner", sub["solver"])
        if spec["name"] == "Bisection":
            spec["expand"] = False
        sub["budget"] = rng.choice([4, 10, 25])
        subs.append(sub)
    if rng.random() < 0.5:
        # Twins: the same program, different data.
        subs[1] = dict(subs[0])
    return dict(solver=[s["solver"] for s in subs], subs=subs, group="pool", runs=6)


def gen(cell, rng):
    jobs, events = [], []
    for k in range(rng.choice([3, 4, 5])):
        c = rng.randrange(POOL)
        p = common.gen_plan(cell["subs"][c], rng, clean=0.5)
        spec = cell["subs"][c]["solver"].get("inner", cell["subs"][c]["solver"])
        if spec["name"] == "Bisection":
            p["events"] = [e for e in p["events"] if e[1] > 2]
        jobs.append(dict(config=c, plan=p))
    for _ in range(rng.choice([3, 4, 6])):
        op = rng.choice(["again", "kill", "threads", "threads", "threads", "hand", "fresh"])
        if op == "again":
            events.append(["again", rng.randrange(len(jobs))])
        elif op == "kill":
            events.append(["kill", rng.randrange(len(jobs)), rng.choice([0, 1, 2, 5, 11])])
        elif op == "hand":
            events.append(["hand", rng.randrange(len(jobs))])
        elif op == "fresh":
            events.append(["fresh"])
        else:
            who = [rng.randrange(len(jobs)) for _ in range(rng.choice([2, 3, 3, 4]))]
            kills = [rng.choice([None, None, None, rng.randrange(0, 12)]) for _ in who]
            events.append(["threads", who, kills, rng.randrange(1 << 30)])
    return dict(jobs=jobs, events=events)


def shrink(cell, plan):
    for k, e in enumerate(plan["events"]):
        if e[0] == "threads" and len(e[1]) > 2:
            for j in range(len(e[1])):
                e2 = ["threads", e[1][:j] + e[1][j + 1 :], e[2][:j] + e[2][j + 1 :], e[3]]
                yield dict(plan, events=plan["events"][:k] + [e2] + plan["events"][k + 1 :])
    for k, j in enumerate(plan["jobs"]):
        if j["plan"]["events"]:
            jobs = list(plan["jobs"])
            jobs[k] = dict(j, plan=dict(j["plan"], events=[]))
            yield dict(plan, jobs=jobs)


class Turns:
    """Lets one thread at a time run, from one request to the next."""

    def __init__(self, ids, rng):
        self.cond = threading.Condition()
        self.live = set(ids)
        self.parked = set()
        self.granted = None
        self.rng = rng
        self.trace = []
        self.broken = False

    def gate(self, me):
        def wait(session):
            with self.cond:
                self.parked.add(me)
                self.cond.notify_all()
                while self.granted != me and not self.broken:
                    self.cond.wait(0.5)
                self.granted = None
                self.parked.discard(me)
                self.cond.notify_all()

        return wait

    def done(self, me):
        with self.cond:
            self.live.discard(me)
            self.cond.notify_all()

    def conduct(self):
        with self.cond:
            while True:
                if not self.cond.wait_for(
                    lambda: self.granted is None and self.parked == self.live, timeout=120
                ):
                    self.broken = True
                    self.cond.notify_all()
                    raise RuntimeError(f"scheduler stuck: {self.parked} of {self.live} waiting")
                if not self.live:
                    return
                pick = self.rng.choice(sorted(self.live))
                self.trace.append(pick)
                self.granted = pick
                self.cond.notify_all()


def summary(sol, s):
    return dict(
        value=ev.flat(sol.value),
        code=stepper.code(sol.result),
        steps=int(sol.stats["num_steps"]),
        aux=stepper.aux_of(sol.aux)[0],
        state=stepper.leaves(sol.state),
        log=[e.y for e in s.log],
    )


def differs(a, b):
    if (a["code"], a["steps"]) != (b["code"], b["steps"]):
        return f"{a['code']} in {a['steps']} steps, not {b['code']} in {b['steps']}"
    if a["value"].tobytes() != b["value"].tobytes():
        return f"value {a['value']}, not {b['value']}"
    if a["aux"] != b["aux"]:
        return f"auxiliary output of request {a['aux']}, not {b['aux']}"
    if len(a["log"]) != len(b["log"]):
        return f"{len(a['log'])} requests, not {len(b['log'])}"
    for k, (x, y) in enumerate(zip(a["log"], b["log"])):
        if x.tobytes() != y.tobytes():
            return f"request {k} at {x}, not {y}"
    for k, (x, y) in enumerate(zip(a["state"], b["state"])):
        if x.dtype != y.dtype or x.tobytes() != y.tobytes():
            return f"state array {k}: {x}, not {y}"
    return None


class World:
    def __init__(self, cell, plan, out):
        self.cell, self.plan, self.out = cell, plan, out

    def parts(self, j):
        job = self.plan["jobs"][j]
        return self.cell["subs"][job["config"]], job["plan"]

    def session(self, j, kill=None):
        sub, p = self.parts(j)
        faults = common.faults_of(p)
        if kill is not None:
            faults[kill] = ("raise", 0.5)
        return common.session(sub, p, faults)

    def solve(self, j, s, sid):
        """(summary, exception) and whether the arguments came back as they went in."""
        sub, p = self.parts(j)
        d = stepper.driver(sub)
        options = d.options(p)
        keep = dict(options)
        before = stepper.leaves(d.solver)
        ev.register(sid, s)
        try:
            sol = stepper.solve(
                sub["kind"], d.raw_fn, d.solver, d.y(p["y0"]), d.args(sid), options,
                max_steps=sub["budget"], throw=False,
            )
            got, err = summary(sol, s), None
        except Exception as e:
            got, err = None, e
        finally:
            ev.unregister(sid)
        if set(options) != set(keep) or any(options[k] is not keep[k] for k in keep):
            self.out.bad("arguments", f"options {sorted(keep)} came back as {sorted(options)}")
        if any(a.tobytes() != b.tobytes() for a, b in zip(before, stepper.leaves(d.solver))):
            self.out.bad("arguments", "the solver came back changed")
        return got, err


def judge(out, what, j, s, got, err, ref, kill):
    died = any(e.fault == "raise" for e in s.log)
    if died:
        out.probe("a solve was killed")
        if err is None:
            out.bad("swallowed", f"{what}: the function raised at request {kill}, the solve returned")
            return True
        if f"evaluator died at request {kill}" not in str(err):
            out.bad("swallowed", f"{what}: the caller got {type(err).__name__}: {str(err)[-300:]}")
        if [x.y.tobytes() for x in s.log] != [y.tobytes() for y in ref["log"][: len(s.log)]]:
            out.bad("company", f"{what}: job {j}, killed, had asked something else")
        return True
    if err is not None:
        raise err
    out.feed(got["value"], got["code"], got["steps"])
    why = differs(got, ref)
    if why:
        out.bad("company", f"{what}: job {j}: {why}")
    return False


def known_raise(world, j, s, err):
    sub, _ = world.parts(j)
    return err is not None and (
        common.indirect_raise(sub, s, err)
        or (common.refused(sub, s) and "root is not contained" in str(err))
    )


def run(cell, plan):
    out = Outcome()
    world = World(cell, plan, out)
    ref, dead = {}, set()
    for j in range(len(plan["jobs"])):
        s = world.session(j)
        got, err = world.solve(j, s, 1)
        if known_raise(world, j, s, err):
            dead.add(j)
            continue
        if err is not None:
            raise err
        out.log(s)
        out.steps += got["steps"]
        ref[j] = got
    killed = False
    turns = []
    out.trivial = True
    for k, e in enumerate(plan["events"]):
        what = f"operation {k} {e[0]}"
        if e[0] == "fresh":
            # Compiled anew alone, not in threads: JAX makes a second caller of a program
            # wait for the first execution of it.
            jax.clear_caches()
            for j in ref:
                s = world.session(j)
                got, err = world.solve(j, s, 1)
                judge(out, what, j, s, got, err, ref[j], None)
            out.probe("solved with nothing cached")
            continue
        if e[0] == "threads":
            who = [(j, kill) for j, kill in zip(e[1], e[2]) if j not in dead]
            trace, died = threads(world, out, what, who, ref, e[3])
            turns.append(trace)
            if len(set(trace)) > 1:
                out.probe("solves interleaved in threads")
                out.trivial = False
            if died and len(who) > 1:
                out.probe("a solve was killed among running ones")
            killed |= died
            continue
        j = e[1]
        if j in dead:
            continue
        if e[0] == "hand":
            sub, p = world.parts(j)
            s = world.session(j)
            stepper.driver(sub).run(s, p, 5)
            out.log(s)
            out.probe("stepped by hand in between")
            continue
        kill = e[2] if e[0] == "kill" else None
        s = world.session(j, kill)
        got, err = world.solve(j, s, 1)
        out.log(s)
        if judge(out, what, j, s, got, err, ref[j], kill):
            killed = True
            out.trivial = False
        elif killed:
            out.probe("solved again after a kill")
        else:
            out.probe("solved again")
    # Afterwards, everything is as it was.
    for j in ref:
        s = world.session(j)
        got, err = world.solve(j, s, 1)
        judge(out, "at the end", j, s, got, err, ref[j], None)
        out.probe("solved again after a kill" if killed else "solved again")
    out.history = repr((cell["solver"], plan["events"], turns))
    return out


def threads(world, out, what, who, ref, seed):
    turns = Turns(range(len(who)), random.Random(seed))
    sessions = [world.session(j, kill) for j, kill in who]
    results = [None] * len(who)

    def body(k):
        try:
            results[k] = world.solve(who[k][0], sessions[k], 200 + k)
        except BaseException as e:
            results[k] = (None, e)
        finally:
            turns.done(k)

    for k, s in enumerate(sessions):
        s.gate = turns.gate(k)
    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(who))]
    for t in ts:
        t.start()
    turns.conduct()
    for t in ts:
        t.join(60)
    died = False
    for k, (j, kill) in enumerate(who):
        out.log(sessions[k])
        got, err = results[k]
        died |= judge(out, f"{what} thread {k} of {len(who)}", j, sessions[k], got, err, ref[j], kill)
    out.feed(turns.trace)
    return turns.trace, died
