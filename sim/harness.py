"""Runs a property's simulation over many seeds on all cores, minimises and confirms
what it finds, and writes the evidence."""

import hashlib
import importlib
import json
import os
import queue
import re
import select
import subprocess
import sys
import threading
import time
import traceback


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
KNOWN = os.path.join(ROOT, "known_findings.txt")

RUN_TIMEOUT = 150.0  # one simulated run, including compilation
DEADLINE = dict(quick=420.0, thorough=720.0)  # no new work after this


class Outcome:
    """What one simulated run did, and what is wrong with it."""

    def __init__(self):
        self.violations = []  # (sig, message)
        self.requests = 0
        self.steps = 0
        self.faults = {}
        self.history = ""
        self.trivial = False
        self.probes = {}
        self._digest = hashlib.sha256()

    def bad(self, sig, msg):
        self.violations.append((sig, str(msg)[:1500]))

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def feed(self, *things):
        """Everything observed goes into the digest of the execution."""
        import numpy as np

        for t in things:
            if isinstance(t, (str, int, float, bool, type(None))):
                self._digest.update(repr(t).encode())
            elif isinstance(t, (list, tuple)):
                self.feed(*t)
            else:
                a = np.asarray(t)
                self._digest.update(str((a.dtype, a.shape)).encode() + a.tobytes())

    def log(self, session):
        self.requests += session.n
        for k, v in session.fired.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for e in session.log:
            self.feed(e.tok, e.y, e.v, e.J)

    def digest(self):
        return self._digest.hexdigest()[:32]

    def as_json(self):
        return dict(
            violations=self.violations,
            requests=self.requests,
            steps=self.steps,
            faults=self.faults,
            history=hashlib.sha256(self.history.encode()).hexdigest()[:16],
            trivial=self.trivial,
            probes=self.probes,
            digest=self.digest(),
        )


def load(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def make_cell(mod, seed, i, tier):
    from .rng import stream

    return json.loads(json.dumps(mod.cell(stream(seed, mod.ID, "cell", i), i, tier)))


def make_plan(mod, cell, seed, i, r):
    from .rng import stream

    return json.loads(json.dumps(mod.gen(cell, stream(seed, mod.ID, "run", i, r))))


# Executing one run: in a worker process.


def _from_target(exc):
    """Did the code under test raise this, rather than this framework?"""
    from .env import REPO

    frames = traceback.extract_tb(exc.__traceback__)
    files = [os.path.realpath(f.filename) for f in frames]
    target = os.path.realpath(REPO) + os.sep + "optimistix"
    name = type(exc).__name__
    if name in (
        "EquinoxRuntimeError", "XlaRuntimeError", "JaxRuntimeError", "UnexpectedTracerError"
    ):
        return True
    last = max((k for k, f in enumerate(files) if f.startswith(target)), default=-1)
    # The function under solution is called by the target; what goes wrong in it at
    # tracing time is the target's doing.
    sim = os.path.join(ROOT, "sim") + os.sep
    own = max(
        (k for k, f in enumerate(files) if f.startswith(sim) and f != sim + "evaluator.py"),
        default=-1,
    )
    return last > own


def execute(mod, cell, plan):
    from . import evaluator as ev

    ev.HARNESS_ERRORS.clear()
    try:
        out = mod.run(cell, plan)
    except Exception as e:
        if ev.HARNESS_ERRORS:
            raise RuntimeError("evaluator failed: " + ev.HARNESS_ERRORS[0]) from e
        if "runaway:" in str(e) or ev.RUNAWAY:
            out = Outcome()
            out.bad("runaway", f"request limit exceeded: {str(e)[-300:]}")
        elif _from_target(e):
            out = Outcome()
            text = re.sub(r"0x[0-9a-f]+", "0x", f"{type(e).__name__}: {e}")
            out.bad("exception:" + type(e).__name__, text[:600])
        else:
            raise
    finally:
        ev.RUNAWAY.clear()
    if ev.HARNESS_ERRORS:
        raise RuntimeError("evaluator failed: " + ev.HARNESS_ERRORS[0])
    return out


def known_sigs(pid):
    """{sig: what} for the property's known findings."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def minimise(mod, cell, plan, sig, limit=60.0):
    """Delta debugging on the plan's events, then the property's own reductions."""
    end = time.monotonic() + limit

    def fails(p):
        if time.monotonic() > end:
            return False
        try:
            return any(s == sig for s, _ in execute(mod, cell, p).violations)
        except Exception:
            return False

    best = plan
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        events = best.get("events", [])
        size = max(1, len(events) // 2)
        while events and size >= 1 and time.monotonic() < end:
            k = 0
            while k < len(events):
                cand = dict(best, events=events[:k] + events[k + size :])
                if fails(cand):
                    best, events = cand, cand["events"]
                    changed = True
                else:
                    k += size
            if size == 1:
                break
            size //= 2
        for cand in getattr(mod, "shrink", lambda c, p: [])(cell, best):
            if fails(cand):
                best, changed = cand, True
                break
    return best


# Worker process.


def worker(pid):
    channel = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)  # reports printed by solvers must not reach the protocol

    def say(**kw):
        channel.write(json.dumps(kw) + "\n")
        channel.flush()

    try:
        from . import env  # noqa: F401

        mod = load(pid)
        known = set(known_sigs(pid))
    except BaseException:
        say(kind="error", where="import", text=traceback.format_exc()[-3000:])
        return
    say(kind="ready")
    for line in sys.stdin:
        task = json.loads(line)
        try:
            if task["do"] == "cell":
                _do_cell(mod, task, known, say)
            elif task["do"] == "run":
                _do_before(mod, task, say)
                out = execute(mod, task["cell"], task["plan"])
                say(kind="ran", out=out.as_json())
        except BaseException:
            say(kind="error", where=task, text=traceback.format_exc()[-3000:])
        _clear()


def _clear():
    import gc

    import jax

    from . import stepper

    stepper.clear()
    jax.clear_caches()
    gc.collect()


def _do_before(mod, task, say):
    """What the process did before the run, if that is part of the replay."""
    last = None
    for i, r in task.get("before", ()):
        if last is not None and i != last:
            _clear()
        last = i
        cell = make_cell(mod, task["seed"], i, task["tier"])
        execute(mod, cell, make_plan(mod, cell, task["seed"], i, r))
        say(kind="before")
    if last is not None and last != task["i"]:
        _clear()


def _do_cell(mod, task, known, say):
    seed, i, tier = task["seed"], task["i"], task["tier"]
    cell = make_cell(mod, seed, i, tier)
    for r in range(cell["runs"]):
        if r in task.get("skip", ()):
            continue
        plan = make_plan(mod, cell, seed, i, r)
        say(kind="start", i=i, r=r)
        out = execute(mod, cell, plan)
        fresh = [v for v in out.violations if v[0] not in known]
        say(kind="run", i=i, r=r, out=out.as_json(), sample=plan if r == 0 else None)
        if fresh:
            sig = fresh[0][0]
            say(kind="shrinking", i=i, r=r)
            small = minimise(mod, cell, plan, sig)
            again = execute(mod, cell, small)
            msg = [m for s, m in again.violations if s == sig]
            if not msg:
                small, again, msg = plan, out, [fresh[0][1]]
            say(
                kind="violation",
                i=i,
                r=r,
                cell=cell,
                plan=small,
                full=plan,
                sig=sig,
                msg=msg[0],
                digest=again.digest(),
            )
            return
    say(kind="done", i=i)


# Parent.


class Proc:
    def __init__(self, pid, hashseed="0"):
        env = dict(os.environ, PYTHONHASHSEED=hashseed, JAX_TRACEBACK_FILTERING="off")
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen(
            [sys.executable, "-u", os.path.join(ROOT, "check.py"), "--worker", pid],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env=env,
            cwd=ROOT,
        )
        self.buf = b""
        self.dead = False
        self.past = []  # (cell, run), in order, of what this process has done

    def send(self, **kw):
        try:
            self.p.stdin.write((json.dumps(kw) + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.dead = True

    def read(self, timeout):
        """A message, None on timeout, or {"kind": "eof"}."""
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            ready, _, _ = select.select([self.p.stdout], [], [], left)
            if not ready:
                return None
            data = os.read(self.p.stdout.fileno(), 1 << 16)
            if not data:
                self.dead = True
                return dict(kind="eof")
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(timeout=10)
        except Exception:
            pass
        for f in (self.p.stdin, self.p.stdout):
            try:
                f.close()
            except Exception:
                pass
        self.dead = True


class HarnessError(Exception):
    pass


class Campaign:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.t0 = time.monotonic()
        self.lock = threading.Lock()
        self.todo = queue.Queue()
        self.stop = threading.Event()
        self.errors = []
        self.violation = None
        self.runs = 0
        self.clean_runs = 0
        self.requests = 0
        self.steps = 0
        self.faults = {}
        self.probes = {}
        self.histories = set()
        self.nontrivial = 0
        self.samples = []
        self.known = {}
        self.cells_done = 0
        self.digests = {}
        self.first = {}  # what the process had done before a cell's first run
        self.crashed = []

    def elapsed(self):
        return time.monotonic() - self.t0

    def absorb(self, msg, before):
        out = msg["out"]
        with self.lock:
            self.runs += 1
            self.requests += out["requests"]
            self.steps += out["steps"]
            if not any(out["faults"].values()):
                self.clean_runs += 1
            for k, v in out["faults"].items():
                self.faults[k] = self.faults.get(k, 0) + v
            for k, v in out["probes"].items():
                self.probes[k] = self.probes.get(k, 0) + v
            if not out["trivial"]:
                self.nontrivial += 1
                self.histories.add(out["history"])
            for sig, m in out["violations"]:
                self.known.setdefault(sig, m)
            self.digests[(msg["i"], msg["r"])] = out["digest"]
            self.first.setdefault(msg["i"], before)
            if msg.get("sample") and len(self.samples) < 3:
                self.samples.append(
                    dict(cell=msg["i"], run=msg["r"], plan=msg["sample"], digest=out["digest"])
                )

    def serve(self, hang):
        """One worker's life: take cells until there are none left."""
        proc = None
        try:
            while not self.stop.is_set():
                if self.elapsed() > DEADLINE[self.tier]:
                    return
                try:
                    i = self.todo.get_nowait()
                except queue.Empty:
                    return
                skip = []
                while True:
                    if proc is None or proc.dead:
                        proc = self.spawn()
                    proc.send(do="cell", seed=self.seed, i=i, tier=self.tier, skip=skip)
                    verdict, r, done = self.watch(proc, skip)
                    if verdict == "done" or self.stop.is_set():
                        break
                    if verdict == "stuck":
                        # No answer, or the process died, during run r.
                        proc.kill()
                        hang(i, r)
                        skip += done + [r]
                        if len(skip) > 1000:
                            raise HarnessError("too many stuck runs")
                    if self.stop.is_set():
                        break
        except Exception:
            with self.lock:
                self.errors.append(traceback.format_exc())
            self.stop.set()
        finally:
            if proc is not None:
                proc.kill()

    def spawn(self, hashseed="0"):
        proc = Proc(self.pid, hashseed)
        msg = proc.read(240)
        if msg is None or msg["kind"] != "ready":
            proc.kill()
            raise HarnessError(f"worker did not start: {msg and msg.get('text', msg)}")
        return proc

    def watch(self, proc, skip):
        r, done = 0, []
        while True:
            if self.stop.is_set():
                return "stopped", r, done
            msg = proc.read(RUN_TIMEOUT)
            if msg is None or msg["kind"] == "eof":
                return "stuck", r, done
            k = msg["kind"]
            if k == "start":
                r = msg["r"]
            elif k == "run":
                done.append(msg["r"])
                self.absorb(msg, list(proc.past))
                proc.past.append([msg["i"], msg["r"]])
            elif k == "done":
                with self.lock:
                    self.cells_done += 1
                return "done", r, done
            elif k == "violation":
                with self.lock:
                    if self.violation is None:
                        self.violation = dict(msg, before=proc.past[:-1])
                self.stop.set()
                return "done", r, done
            elif k == "error":
                raise HarnessError(msg["text"])

    def hang(self, i, r):
        """A run that got no answer: confirm in a new process before believing it."""
        mod = load(self.pid)
        cell = make_cell(mod, self.seed, i, self.tier)
        plan = make_plan(mod, cell, self.seed, i, r)
        sig, _, _ = replay_once(self, cell, plan, RUN_TIMEOUT)
        if sig in ("hang", "process-died"):
            with self.lock:
                if self.violation is None:
                    self.violation = dict(
                        i=i, r=r, cell=cell, plan=plan, full=plan, sig=sig,
                        msg="no result from this run", digest=None,
                    )
            self.stop.set()
        else:
            with self.lock:
                self.crashed.append((i, r))


def replay_once(campaign, cell, plan, timeout, hashseed="1", i=None, before=()):
    """(sig or None, violations, digest) of one run in a new process, which first does
    again the runs `before`."""
    proc = campaign.spawn(hashseed)
    try:
        proc.send(
            do="run", cell=cell, plan=plan, i=i, before=list(before),
            seed=campaign.seed, tier=campaign.tier,
        )
        msg = proc.read(timeout)
        while msg is not None and msg["kind"] == "before":
            msg = proc.read(timeout)
        if msg is None:
            return "hang", [["hang", "no result"]], None
        if msg["kind"] == "eof":
            return "process-died", [["process-died", "worker died"]], None
        if msg["kind"] == "error":
            raise HarnessError(msg["text"])
        v = msg["out"]["violations"]
        return (v[0][0] if v else None), v, msg["out"]["digest"]
    finally:
        proc.kill()


def workers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(int(os.environ.get("VERIF_WORKERS", n)), 16))


def check(pid, seed, tier):
    mod = load(pid)
    os.makedirs(EVIDENCE, exist_ok=True)
    c = Campaign(pid, seed, tier)
    ncells = mod.CELLS[tier]
    for i in range(ncells):
        c.todo.put(i)
    threads = [
        threading.Thread(target=c.serve, args=(c.hang,), daemon=True)
        for _ in range(min(workers(), ncells))
    ]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    code = 0
    repeat = None
    if c.violation is not None:
        code = report(c)
    elif c.errors:
        print("ERROR of the check:\n" + c.errors[0], flush=True)
        code = 2
    else:
        known = known_sigs(pid)
        for sig in sorted(c.known):
            print(f"KNOWN-FINDING: property={pid} {known[sig]}", flush=True)
        try:
            repeat = determinism(c, mod)
            if c.violation is not None:
                code = report(c)
        except HarnessError as e:
            print(f"ERROR of the check: {e}", flush=True)
            code = 2
        if len(c.crashed) > 3:
            print(f"ERROR of the check: {len(c.crashed)} runs needed a restart")
            code = 2
        enough = max(1, min(ncells, ncells // 10))
        if c.cells_done < enough:
            print(f"ERROR of the check: only {c.cells_done} of {ncells} cells in time")
            code = 2
        missing = [
            p for p in getattr(mod, "MUST", ()) if not c.probes.get(p) and c.cells_done == ncells
        ]
        if missing:
            print(f"ERROR of the check: conditions never reached: {missing}")
            code = 2
    evidence(c, mod, ncells, repeat, code)
    print(
        f"{pid} {tier} seed={seed}: {c.runs} runs in {c.cells_done}/{ncells} cells, "
        f"{len(c.histories)} distinct histories, {c.requests} requests, "
        f"{sum(c.faults.values())} faults fired, {c.elapsed():.0f}s, exit {code}",
        flush=True,
    )
    return code


def confirm(c, v):
    """The changes to the replay file with which a new process shows the violation again,
    or None. If the run by itself does not show it, then something outlives a run: the
    runs which the process had done before become part of the replay."""

    def shows(plan, before=()):
        _, vs, digest = replay_once(
            c, v["cell"], plan, RUN_TIMEOUT, i=v["i"], before=before
        )
        return digest if any(s == v["sig"] for s, _ in vs) else None

    if v["sig"] == "memory":
        return dict(before=v["before"], alone=v["alone"])
    if v["digest"] is None:
        _, vs, _ = replay_once(c, v["cell"], v["plan"], RUN_TIMEOUT)
        return {} if any(s == v["sig"] for s, _ in vs) else None
    for plan in (v["plan"], v["full"]):
        digest = shows(plan)
        if digest == v["digest"]:
            return dict(plan=plan)
        if digest is not None:
            return dict(plan=plan, digest=digest, repeatable=shows(plan) == digest)
    past = v.get("before", [])
    end = time.monotonic() + 200
    same = [e for e in past if e[0] == v["i"]]
    for before in (same, past):
        digest = before and shows(v["full"], before)
        if not digest:
            continue
        # Fewer of them.
        size = max(1, len(before) // 2)
        while size >= 1 and time.monotonic() < end:
            k = 0
            while k < len(before) and time.monotonic() < end:
                less = before[:k] + before[k + size :]
                got = less and shows(v["full"], less)
                if got:
                    before, digest = less, got
                else:
                    k += size
            size //= 2
        return dict(plan=v["full"], before=before, digest=digest)
    return None


def report(c):
    v = c.violation
    path = os.path.join(EVIDENCE, f"{c.pid}-replay-{c.seed}-{v['i']}-{v['r']}.json")
    doc = dict(
        property=c.pid,
        seed=c.seed,
        tier=c.tier,
        cell_index=v["i"],
        run=v["r"],
        sig=v["sig"],
        message=v["msg"],
        digest=v["digest"],
        cell=v["cell"],
        plan=v["plan"],
        events_before_minimising=len(v["full"].get("events", [])),
        original_plan=v["full"],
    )
    try:
        found = confirm(c, v)
    except HarnessError as e:
        print(f"ERROR of the check: replay failed: {e}")
        return 2
    doc.update(found or {})
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    if found is None:
        print(f"ERROR of the check: {v['sig']} did not reproduce from {path}")
        return 2
    print(f"sig: {v['sig']}\n{v['msg']}\nevents: {v['plan'].get('events')}")
    print(f"solver: {json.dumps(v['cell'].get('solver'))}")
    print(f"VIOLATION property={c.pid} replay={path}", flush=True)
    return 1


def determinism(c, mod):
    """Run one cell again in another process with another hash seed: the executions
    must be the same to the last bit."""
    cells = sorted({i for i, _ in c.digests})
    if not cells:
        return None
    which = [cells[c.seed % len(cells)]]
    if getattr(mod, "ISOLATED", False):
        # Those before which a process had done most.
        which = sorted(cells, key=lambda i: (-len(c.first[i]), i))[:4]
    proc = c.spawn(hashseed="4242")
    n = 0
    try:
        for i in which:
            proc.send(do="cell", seed=c.seed, i=i, tier=c.tier)
            while True:
                msg = proc.read(RUN_TIMEOUT)
                if msg is None or msg["kind"] in ("eof", "error", "violation"):
                    raise HarnessError(f"rerun of cell {i} differs: {msg and msg['kind']} {msg}")
                if msg["kind"] == "run":
                    want = c.digests.get((i, msg["r"]))
                    if want is not None and want != msg["out"]["digest"]:
                        if getattr(mod, "ISOLATED", False) and remembers(c, mod, i, msg["r"]):
                            return None
                        raise HarnessError(f"run {i}/{msg['r']} is not deterministic")
                    n += 1
                if msg["kind"] == "done":
                    break
    finally:
        proc.kill()
    return dict(cells=which, runs=n, identical=True)


def remembers(c, mod, i, r):
    """Is a run the same whenever the process is new, the same whenever the process has
    done certain other runs, and those two are different? Then solves are not independent."""
    cell = make_cell(mod, c.seed, i, c.tier)
    plan = make_plan(mod, cell, c.seed, i, r)
    before = c.first[i] + [[i, k] for k in range(r)]
    alone = [replay_once(c, cell, plan, RUN_TIMEOUT)[2] for _ in range(2)]
    after = [
        replay_once(c, cell, plan, RUN_TIMEOUT, i=i, before=before)[2] for _ in range(2)
    ]
    if alone[0] != alone[1] or after[0] != after[1] or alone[0] == after[0]:
        return False
    c.violation = dict(
        i=i, r=r, cell=cell, plan=plan, full=plan, sig="memory", digest=after[0],
        alone=alone[0], before=before,
        msg=f"run {r} of cell {i} goes one way in a new process, another after {len(before)} runs",
    )
    return True


def evidence(c, mod, ncells, repeat, code):
    wall = c.elapsed()
    doc = dict(
        property=c.pid,
        tier=c.tier,
        seed=c.seed,
        level="exploration",
        coverage=dict(
            evaluations=c.runs,
            distinct_nontrivial=len(c.histories),
            rule=mod.RULE,
            samples=c.samples,
            runs_per_hour=round(c.runs / wall * 3600),
            seeds_per_hour=round(c.runs / wall * 3600),
            simulated_steps=c.steps,
            requests_answered=c.requests,
            faults_fired=c.faults,
            runs_without_faults=c.clean_runs,
            nontrivial_runs=c.nontrivial,
            configurations_completed=c.cells_done,
            configurations_planned=ncells,
            conditions_reached=c.probes,
            rerun_in_other_process=repeat,
            known_findings_seen=sorted(c.known) if code == 0 else [],
            real_components=mod.REAL,
            stub_components=mod.STUB,
        ),
        wall_s=round(wall, 2),
        violations=1 if code == 1 else 0,
    )
    if getattr(mod, "ASSUMPTIONS", None):
        doc["assumptions"] = mod.ASSUMPTIONS
    path = os.path.join(EVIDENCE, f"{c.pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    c = Campaign(doc["property"], doc["seed"], doc["tier"])
    _, vs, digest = replay_once(
        c, doc["cell"], doc["plan"], RUN_TIMEOUT, i=doc["cell_index"], before=doc.get("before", ())
    )
    for s, m in vs:
        print(f"sig: {s}\n{m}")
    same = any(s == doc["sig"] for s, _ in vs)
    if doc["sig"] == "memory":
        alone = replay_once(c, doc["cell"], doc["plan"], RUN_TIMEOUT)[2]
        print(f"in a new process {alone}, recorded {doc['alone']}")
        same = digest == doc["digest"] and alone == doc["alone"]
    print(f"digest {digest}, recorded {doc['digest']}")
    if same:
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("not reproduced")
    return 0
