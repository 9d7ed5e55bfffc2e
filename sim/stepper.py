"""Drives a real solver one step at a time, through the four public methods every
solver has, exactly as the solve loop does; or through the public entry points."""

import functools as ft

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optimistix as optx

from . import catalog, evaluator as ev


_CODES = {}
for _name in list(optx.RESULTS._name_to_item):  # lineax's codes are inherited
    _CODES[int(getattr(optx.RESULTS, _name)._value)] = _name


def code(result):
    return _CODES[int(result._value)]


def codes(result):
    return [_CODES[int(x)] for x in np.asarray(result._value).ravel()]


def message(name):
    return optx.RESULTS[getattr(optx.RESULTS, name)]


class Step:
    __slots__ = (
        "i",
        "y_in",
        "y_out",
        "aux",
        "terminate",
        "code",
        "entries",
        "state",
    )

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Trace:
    def __init__(self, session):
        self.session = session
        self.steps: list[Step] = []
        self.init_entries = []
        self.init_terminate = None
        self.init_code = None
        self.state0 = None
        self.y = None
        self.state = None
        self.aux = None
        self.ended = None  # code, once the loop would have stopped

    @property
    def entries(self):
        return self.session.log


@eqx.filter_jit
def _init(fn, solver, y, args, options, f_struct, aux_struct):
    state = solver.init(fn, y, args, options, f_struct, aux_struct, frozenset())
    term, result = solver.terminate(fn, y, args, options, state, frozenset())
    return state, term, result


@eqx.filter_jit
def _step(fn, solver, y, args, options, state):
    new_y, new_state, aux = solver.step(fn, y, args, options, state, frozenset())
    # The stopping test is applied to the iterate the step started from.
    term, result = solver.terminate(fn, y, args, options, new_state, frozenset())
    return new_y, new_state, aux, term, result


@eqx.filter_jit
def _post(fn, solver, y, aux, args, options, state, result):
    return solver.postprocess(
        fn, y, aux, args, options, state, frozenset(), result
    )


def _finite(y):
    return bool(np.all(np.isfinite(y)))


class Driver:
    """A cell's compiled programs."""

    def __init__(self, cell, solver=None):
        self.cell = cell
        self.solver = catalog.build(cell["solver"]) if solver is None else solver
        self.raw_fn = ev.make_fn(cell["n"], cell["m"], cell["ys"], cell["os"])
        y = ev.struct(cell["ys"], cell["n"])
        self.fn = eqx.filter_closure_convert(self.raw_fn, y, self.args(0))
        self.f_struct, self.aux_struct = self.fn.out_struct

    def args(self, sid):
        return {"sid": jnp.array(sid)}

    def y(self, flat):
        return ev.pack(self.cell["ys"], self.cell["n"], flat)

    def options(self, plan):
        """Static options of the cell, and the run's bounds."""
        out = dict(self.cell["opts"])
        for k in ("lower", "upper"):
            if k in plan:
                out[k] = self.y(plan[k])
        return out

    def init(self, y, args, options):
        return _init(
            self.fn, self.solver, y, args, options, self.f_struct, self.aux_struct
        )

    def step(self, y, args, options, state):
        return _step(self.fn, self.solver, y, args, options, state)

    def post(self, y, aux, args, options, state, result):
        return _post(self.fn, self.solver, y, aux, args, options, state, result)

    # A stepped run.
    def run(self, session, plan, max_steps, stop=True, sid=1, keep_state=False):
        ev.register(sid, session)
        try:
            return self._run(session, plan, max_steps, stop, sid, keep_state)
        finally:
            ev.unregister(sid)

    def _run(self, session, plan, max_steps, stop, sid, keep_state):
        args = self.args(sid)
        options = self.options(plan)
        y = self.y(plan["y0"])
        tr = Trace(session)
        session.mark = "init"
        state, term, result = self.init(y, args, options)
        tr.init_entries = list(session.log)
        tr.init_terminate = bool(term)
        tr.init_code = code(result) if _finite(ev.flat(y)) else "nonfinite"
        tr.state0 = state
        tr.state = state
        tr.y = y
        if tr.init_terminate or tr.init_code != "successful":
            tr.ended = tr.init_code
            if stop:
                return tr
        for i in range(max_steps):
            session.mark = i
            at = len(session.log)
            y_in = ev.flat(y)
            y, state, aux, term, result = self.step(y, args, options, state)
            c = code(result) if _finite(y_in) else "nonfinite"
            tr.steps.append(
                Step(
                    i=i,
                    y_in=y_in,
                    y_out=ev.flat(y),
                    aux=aux_of(aux),
                    terminate=bool(term),
                    code=c,
                    entries=session.log[at:],
                    state=state if keep_state else None,
                )
            )
            tr.y, tr.state, tr.aux, tr.result = y, state, aux, result
            if tr.ended is None and (bool(term) or c != "successful"):
                tr.ended = c
                if stop:
                    break
        return tr

    # A run through the public entry point of the cell's kind of problem.
    def solve(
        self, session, plan, max_steps, sid=1, entry=None, throw=False,
        y0=None, fn=None, args=None, **kw,
    ):
        ev.register(sid, session)
        session.mark = "solve"
        try:
            return solve(
                entry or self.cell["kind"],
                self.raw_fn if fn is None else fn,
                self.solver,
                self.y(plan["y0"]) if y0 is None else y0,
                dict(self.args(sid), **(args or {})),
                self.options(plan),
                max_steps=max_steps,
                throw=throw,
                **kw,
            )
        finally:
            ev.unregister(sid)


ENTRY = dict(
    min=optx.minimise,
    lsq=optx.least_squares,
    root=optx.root_find,
    fp=optx.fixed_point,
)


def solve(entry, fn, solver, y0, args, options, *, max_steps, throw, **kw):
    if max_steps != "default":
        kw["max_steps"] = max_steps
    return ENTRY[entry](
        fn,
        solver,
        y0,
        args,
        options,
        has_aux=True,
        throw=throw,
        **kw,
    )


def aux_of(aux):
    """(token, point) carried by an auxiliary output, whatever wraps it."""
    while isinstance(aux, tuple) and len(aux) == 2:
        aux = aux[1]
    return int(np.asarray(aux["tok"])), np.asarray(aux["echo"]).ravel()


def leaves(tree):
    """The array leaves of a state, as bytes-comparable arrays."""
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(eqx.filter(tree, eqx.is_array))]


def same(a, b):
    la, lb = leaves(a), leaves(b)
    return len(la) == len(lb) and all(
        x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes()
        for x, y in zip(la, lb)
    )


@ft.lru_cache(maxsize=None)
def _driver(key):
    import json

    return Driver(json.loads(key))


def driver(cell):
    import json

    keys = ("solver", "group", "kind", "n", "m", "ys", "os", "opts")
    return _driver(json.dumps({k: cell[k] for k in keys}, sort_keys=True))


def clear():
    _driver.cache_clear()
