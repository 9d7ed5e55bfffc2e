"""The evaluator: the peer every solve talks to.

A nonlinear solve is a client which repeatedly asks somebody else's code -- the user's
function -- for a value and a derivative. Here that function is a call out of the
compiled program to the host (`jax.pure_callback`), answered by a `Session`. The session
owns the problem, the fault plan and the event log, so every request a real solver makes
is seen, can be answered wrongly, late or not at all, and is recorded.
"""

import threading

import jax
import jax.flatten_util as jfu
import jax.numpy as jnp
import numpy as np

from .problems import Problem, SCALAR


# Fault kinds which change the answer to one request.
#   nan       value and derivative are NaN
#   vnan      value is NaN, derivative is fine
#   inf       value is +inf, derivative is fine
#   ninf      value is -inf, derivative is fine
#   zero      value is exactly zero, derivative is fine
#   leafnan   one component of the value is NaN (the value itself, if scalar)
#   jnan      value is fine, derivative is NaN
#   jzero     value is fine, derivative is zero
#   high      value is far too large, but finite
#   low       value is far too small, but finite
#   bias      value is off by a moderate amount
#   garble    value and derivative replaced by arbitrary finite numbers
#   stale     answer to the previous request is delivered again
#   raise     evaluator dies: the request raises
VALUE_FAULTS = (
    "nan",
    "vnan",
    "inf",
    "ninf",
    "zero",
    "leafnan",
    "jnan",
    "jzero",
    "high",
    "low",
    "bias",
    "garble",
    "stale",
)
FAULTS = VALUE_FAULTS + ("raise",)


class EvaluatorCrash(Exception):
    pass


# Set from inside a callback, where an exception would lose its identity on its way out.
HARNESS_ERRORS: list[str] = []
RUNAWAY: list[str] = []


class Entry:
    __slots__ = ("tok", "y", "v", "J", "fault", "mark")

    def __init__(self, tok, y, v, J, fault, mark):
        self.tok, self.y, self.v, self.J = tok, y, v, J
        self.fault, self.mark = fault, mark

    @property
    def loss(self):
        """As a minimisation problem: the value, or the sum of squares."""
        return self.v if np.ndim(self.v) == 0 else np.sum(self.v**2)


class Session:
    """One simulated evaluator. `faults` maps request ordinal -> (kind, parameter)."""

    def __init__(self, problem: Problem, faults=None, hole=None, limit=20000):
        self.problem = problem
        self.faults = dict(faults or {})
        # A hole is a half-space (a, b): the function is undefined where a.y > b.
        self.hole = hole
        self.log: list[Entry] = []
        self.n = 0
        self.fired: dict[str, int] = {}
        self.mark = None
        self.gate = None
        self.last = None
        self.limit = limit

    def evaluate(self, y):
        if self.gate is not None:
            self.gate(self)
        y = np.array(y, np.float64)
        ordinal = self.n
        self.n += 1
        if self.n > self.limit:
            RUNAWAY.append("limit")
            raise EvaluatorCrash(f"runaway: more than {self.limit} requests")
        v, J = self.problem.ev(y)
        v, J = np.array(v, np.float64), np.array(J, np.float64)
        fault = self.faults.get(ordinal)
        kind = None
        if fault is not None:
            kind, param = fault
            if kind == "raise":
                self._fire(kind)
                self.log.append(Entry(ordinal, y, v, J, kind, self.mark))
                raise EvaluatorCrash(f"evaluator died at request {ordinal}")
            v, J, kind = self._corrupt(kind, param, v, J)
            if kind is not None:
                self._fire(kind)
        if self.hole is not None and float(np.dot(self.hole[0], y)) > self.hole[1]:
            v, J = np.full_like(v, np.nan), np.full_like(J, np.nan)
            self._fire("hole")
            kind = kind or "hole"
        self.last = (v, J)
        self.log.append(Entry(ordinal, y, v, J, kind, self.mark))
        return v, J, ordinal

    def _fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def _corrupt(self, kind, param, v, J):
        g = np.random.Generator(np.random.PCG64(abs(int(param * 1e6)) + 1))
        if kind == "nan":
            return np.full_like(v, np.nan), np.full_like(J, np.nan), kind
        if kind == "vnan":
            return np.full_like(v, np.nan), J, kind
        if kind == "inf":
            return np.full_like(v, np.inf), J, kind
        if kind == "ninf":
            return np.full_like(v, -np.inf), J, kind
        if kind == "zero":
            return np.zeros_like(v), J, kind
        if kind == "leafnan":
            v = np.array(v)
            if v.ndim == 0:
                v = np.array(np.nan)
            else:
                v[int(param * len(v)) % len(v)] = np.nan
            return v, J, kind
        if kind == "jnan":
            return v, np.full_like(J, np.nan), kind
        if kind == "jzero":
            return v, np.zeros_like(J), kind
        if kind == "high":
            return v + (1.0 + np.abs(v)) * (10.0 ** (1 + 5 * param)), J, kind
        if kind == "low":
            return v - (1.0 + np.abs(v)) * (1 + 10 * param), J, kind
        if kind == "bias":
            return v + (param - 0.5), J, kind
        if kind == "garble":
            scale = 10.0 ** g.uniform(-2, 3)
            return (
                np.array(g.normal(size=v.shape) * scale),
                np.array(g.normal(size=J.shape) * scale),
                kind,
            )
        if kind == "stale":
            if self.last is None:
                return v, J, None
            return np.array(self.last[0]), np.array(self.last[1]), kind
        raise ValueError(kind)


_SESSIONS: dict[int, Session] = {}
_LOCK = threading.Lock()


def register(sid: int, session: Session):
    _SESSIONS[sid] = session


def unregister(sid: int):
    _SESSIONS.pop(sid, None)


def _host(sid, y):
    try:
        v, J, tok = _SESSIONS[int(sid)].evaluate(np.asarray(y))
    except EvaluatorCrash:
        raise
    except Exception as e:
        HARNESS_ERRORS.append(f"{type(e).__name__}: {e}")
        raise
    return v, J, np.int64(tok)


def struct(name, n):
    """A zero pytree with `n` scalars in total."""
    if name == "vec":
        return jnp.zeros(n)
    if name == "scal":
        assert n == 1
        return jnp.zeros(())
    if name == "dict":
        k = max(1, n // 2)
        return {"a": jnp.zeros(k), "b": jnp.zeros(n - k)} if n > 1 else {"a": jnp.zeros(1)}
    if name == "tup":
        return (jnp.zeros(()), jnp.zeros(n - 1)) if n > 1 else (jnp.zeros(()),)
    if name == "mat":
        return [jnp.zeros((2, 2)), jnp.zeros(n - 4)] if n > 4 else jnp.zeros((2, 2))
    if name == "scals":
        return {f"s{i}": jnp.zeros(()) for i in range(n)}
    raise ValueError(name)


def structs_for(n):
    if n == 1:
        return ["vec", "scal", "dict", "tup"]
    if n == 4:
        return ["vec", "dict", "tup", "mat", "scals"]
    return ["vec", "dict", "tup", "scals"]


def flat(tree):
    return np.asarray(jfu.ravel_pytree(tree)[0])


def pack(name, n, vec):
    _, unravel = jfu.ravel_pytree(struct(name, n))
    return unravel(jnp.asarray(np.asarray(vec, np.float64)))


_FNS = {}


def make_fn(n, m, y_struct, out_struct):
    """`fn(y, args) -> (out, aux)` with `m=None` for a scalar output. Memoised, so that
    every run sharing these shapes shares one compiled program. `aux` carries the
    identity of the request which produced it and the point it was made at."""
    key = (n, m, y_struct, out_struct)
    if key in _FNS:
        return _FNS[key]
    shape = () if m is None else (m,)
    structs = (
        jax.ShapeDtypeStruct(shape, jnp.float64),
        jax.ShapeDtypeStruct((*shape, n), jnp.float64),
        jax.ShapeDtypeStruct((), jnp.int64),
    )
    if m is None:
        unravel_out = lambda v: v
    else:
        _, unravel_out = jfu.ravel_pytree(struct(out_struct, m))

    def call(sid, yv):
        return jax.pure_callback(_host, structs, sid, yv, vmap_method="sequential")

    @jax.custom_jvp
    def ev(sid, yv):
        v, _, tok = call(sid, yv)
        return v, tok, yv

    @ev.defjvp
    def _(primals, tangents):
        sid, yv = primals
        _, tv = tangents
        v, J, tok = call(sid, yv)
        zero = np.zeros(tok.shape, jax.dtypes.float0)
        return (v, tok, yv), (J @ tv, zero, jnp.zeros_like(yv))

    def fn(y, args):
        yv, _ = jfu.ravel_pytree(y)
        v, tok, echo = ev(args["sid"], yv)
        return unravel_out(v), {"tok": tok, "echo": echo}

    _FNS[key] = fn
    return fn


def _host2(sid, y):
    v, J, tok = _host(sid, y)
    return v, J, _SESSIONS[int(sid)].problem.second(np.asarray(y)), tok


def make_smooth_fn(n, m, y_struct, out_struct):
    """Like `make_fn`, for solves which are differentiated: it also answers requests for
    second derivatives, and depends on a parameter `args["theta"]`, through `args["C"]`
    (and its derivative, through `args["E"]`) and so that it is the same function at
    zero."""
    key = (n, m, y_struct, out_struct, "smooth")
    if key in _FNS:
        return _FNS[key]
    shape = () if m is None else (m,)
    f8 = jnp.float64
    vs, Js = jax.ShapeDtypeStruct(shape, f8), jax.ShapeDtypeStruct((*shape, n), f8)
    Hs, ts = jax.ShapeDtypeStruct((*shape, n, n), f8), jax.ShapeDtypeStruct((), jnp.int64)
    unravel_out = (lambda v: v) if m is None else jfu.ravel_pytree(struct(out_struct, m))[1]

    def call1(sid, yv):
        return jax.pure_callback(_host, (vs, Js, ts), sid, yv, vmap_method="sequential")

    def call2(sid, yv):
        return jax.pure_callback(_host2, (vs, Js, Hs, ts), sid, yv, vmap_method="sequential")

    @jax.custom_jvp
    def ev0(sid, yv):
        v, _, tok = call1(sid, yv)
        return v, tok, yv

    @jax.custom_jvp
    def ev1(sid, yv):
        return call1(sid, yv)

    @ev1.defjvp
    def _(primals, tangents):
        sid, yv = primals
        _, tv = tangents
        v, J, H, tok = call2(sid, yv)
        return (v, J, tok), (J @ tv, H @ tv, np.zeros(tok.shape, jax.dtypes.float0))

    @ev0.defjvp
    def _(primals, tangents):
        sid, yv = primals
        _, tv = tangents
        v, J, tok = ev1(sid, yv)
        zero = np.zeros(tok.shape, jax.dtypes.float0)
        return (v, tok, yv), (J @ tv, zero, jnp.zeros_like(yv))

    def fn(y, args):
        yv, _ = jfu.ravel_pytree(y)
        v, tok, echo = ev0(args["sid"], yv)
        shift = args["C"] @ args["theta"]
        sane = jnp.where(jnp.isfinite(yv), yv, 0)
        v = v + (jnp.dot(shift, sane) if m is None else shift)
        if "E" in args:
            bend = jnp.sum(sane**2) if m is None else jnp.resize(jnp.tanh(sane), shape)
            v = v + jnp.dot(args["E"], args["theta"]) * bend
        return unravel_out(v), {"tok": tok, "echo": echo}

    _FNS[key] = fn
    return fn


def closing_over(fn, args):
    """The same function of y alone, with its parameters in its closure."""
    own = {k: args[k] for k in args if k != "sid"}
    return (lambda y, a: fn(y, {**a, **own})), {"sid": args["sid"]}


def is_scalar(family):
    return family in SCALAR
