"""A solver whose every decision is dictated by the plan: what each step does to the
iterate, when it asks to stop, and with which code. Run through the real loop and entry
points it isolates them from any numerical method."""

from collections.abc import Callable

import equinox as eqx
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import optimistix as optx

from . import stepper


LENGTH = 16
# Codes a solver may report, the interesting ones of each origin.
CODES = [
    "successful",
    "nonlinear_divergence",
    "singular",
    "breakdown",
    "nonfinite_input",
    "nonfinite_output",
    "max_steps_reached",
    "stagnation",
]
CODES = [c for c in CODES if hasattr(optx.RESULTS, c)]


def to_result(index):
    out = optx.RESULTS.successful
    for k, name in enumerate(CODES):
        out = optx.RESULTS.where(index == k, getattr(optx.RESULTS, name), out)
    return out


class _State(eqx.Module):
    k: object
    terminate: object
    code: object


class _Scripted(eqx.Module):
    rtol: float = 1e-6
    atol: float = 1e-6
    norm: Callable = optx.max_norm

    def init(self, fn, y, args, options, f_struct, aux_struct, tags):
        return _State(jnp.array(0), options["stop"][0], options["code"][0])

    def step(self, fn, y, args, options, state, tags):
        _, aux = fn(y, args)
        k = state.k + 1
        move = options["move"][state.k]
        new_y = jtu.tree_map(lambda x: x + move, y)
        return new_y, _State(k, options["stop"][k], options["code"][k]), aux

    def terminate(self, fn, y, args, options, state, tags):
        return state.terminate, to_result(state.code)

    def postprocess(self, fn, y, aux, args, options, state, tags, result):
        return y, aux, {"scripted": state.k}


class ScriptedMinimiser(_Scripted, optx.AbstractMinimiser):
    pass


class ScriptedLeastSquares(_Scripted, optx.AbstractLeastSquaresSolver):
    pass


class ScriptedRootFinder(_Scripted, optx.AbstractRootFinder):
    pass


class ScriptedFixedPoint(_Scripted, optx.AbstractFixedPointSolver):
    pass


_CLASS = dict(
    min=ScriptedMinimiser,
    lsq=ScriptedLeastSquares,
    root=ScriptedRootFinder,
    fp=ScriptedFixedPoint,
)
SOLVER = {k: v() for k, v in _CLASS.items()}


def solver(kind, atol, norm):
    return _CLASS[kind](atol=atol, norm=norm)


def gen_script(rng):
    """Events: ["stop", k], ["code", k, name], ["move", k, "nan"|x]."""
    events = []
    n = LENGTH - 1
    if rng.random() < 0.75:
        events.append(["stop", rng.choice([0, 1, 2, 3, rng.randrange(n)])])
        if rng.random() < 0.3:
            events.append(["stop", rng.randrange(n)])
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        events.append(["code", rng.choice([0, 1, 2, rng.randrange(n)]), rng.choice(CODES[1:])])
    if rng.random() < 0.35:
        events.append(["move", rng.randrange(n), rng.choice(["nan", "inf", "-inf"])])
    rng.shuffle(events)
    return events


def script_of(plan):
    stop = np.zeros(LENGTH, bool)
    code = np.zeros(LENGTH, np.int64)
    move = 0.125 * (1 + np.arange(LENGTH, dtype=np.float64))
    for e in plan["events"]:
        if e[0] == "stop":
            stop[e[1]] = True
        elif e[0] == "code":
            code[e[1]] = CODES.index(e[2])
        elif e[0] == "move":
            move[e[1]] = float(e[2])
    return dict(stop=stop, code=code, move=move)


def model(script, y0, budget, near_zero=None):
    """The documented loop. Returns (steps, code, y). `near_zero(k)`, if given, is the
    extra test of a solver converted into a root finder: is the function near zero where
    step k started?"""
    y = np.array(y0, np.float64)

    def look(k, y_before):
        stop = bool(script["stop"][k])
        if near_zero is not None:
            stop = stop and k > 0 and near_zero(k)
        code = CODES[int(script["code"][k])]
        if not np.all(np.isfinite(y_before)):
            code = "nonfinite"
        return stop, code

    k = 0
    stop, code = look(0, y)
    while not stop and code == "successful" and (budget is None or k < budget):
        old = y
        y = y + script["move"][k]
        k += 1
        stop, code = look(k, old)
    if code == "successful" and not stop:
        code = "nonlinear_max_steps_reached"
    return k, code, y


def options(script):
    return {k: jnp.asarray(v) for k, v in script.items()}


def code_of(sol):
    return stepper.code(sol.result)
