"""Solver configurations as JSON, and how to build them from the public interface."""

from collections.abc import Callable
from typing import Any

import equinox as eqx
import lineax as lx
import numpy as np
import optimistix as optx

from .problems import Problem


NORMS = {"max": optx.max_norm, "rms": optx.rms_norm, "two": optx.two_norm}
CG = {
    "pr": optx.polak_ribiere,
    "fr": optx.fletcher_reeves,
    "hs": optx.hestenes_stiefel,
    "dy": optx.dai_yuan,
}


def _no_verbose(**kwargs):
    pass


class CustomBFGS(optx.AbstractBFGS):
    rtol: float
    atol: float
    norm: Callable
    use_inverse: bool
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    verbose: Callable = _no_verbose


class CustomDFP(optx.AbstractDFP):
    rtol: float
    atol: float
    norm: Callable
    use_inverse: bool
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    verbose: Callable = _no_verbose


class CustomLBFGS(optx.AbstractLBFGS):
    rtol: float
    atol: float
    norm: Callable
    use_inverse: bool
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    history_length: int
    verbose: Callable = _no_verbose


class CustomGD(optx.AbstractGradientDescent):
    rtol: float
    atol: float
    norm: Callable
    descent: optx.AbstractDescent
    search: optx.AbstractSearch


class CustomGN(optx.AbstractGaussNewton):
    rtol: float
    atol: float
    norm: Callable
    descent: optx.AbstractDescent
    search: optx.AbstractSearch
    verbose: Callable = _no_verbose


def build_search(spec):
    kind, kw = spec
    if kind == "armijo":
        return optx.BacktrackingArmijo(**kw)
    if kind == "lintr":
        return optx.LinearTrustRegion(**kw)
    if kind == "classtr":
        return optx.ClassicalTrustRegion(**kw)
    if kind == "lr":
        return optx.LearningRate(kw["rate"])
    raise ValueError(kind)


def build_descent(spec):
    kind, kw = spec
    if kind == "newton":
        n = kw.get("norm")
        return optx.NewtonDescent(
            norm=None if n is None else NORMS[n], linear_solver=_linear(kw.get("ls"))
        )
    if kind == "damped":
        return optx.DampedNewtonDescent(linear_solver=_linear(kw.get("ls", "qr")))
    if kind == "indirect":
        return optx.IndirectDampedNewtonDescent()
    if kind == "dogleg":
        return optx.DoglegDescent(
            linear_solver=_linear(kw.get("ls")),
            trust_region_norm=NORMS[kw.get("norm", "two")],
        )
    if kind == "steepest":
        n = kw.get("norm")
        return optx.SteepestDescent(norm=None if n is None else NORMS[n])
    if kind == "ncg":
        return optx.NonlinearCGDescent(method=CG[kw["method"]])
    raise ValueError(kind)


def _linear(name):
    return {
        None: lx.AutoLinearSolver(well_posed=None),
        "qr": lx.QR(),
        "chol": lx.Cholesky(),
        "svd": lx.SVD(),
        "lu": lx.LU(),
    }[name]


_CACHE: dict[str, Any] = {}


def build(spec, verbose=None):
    import json

    key = json.dumps(spec, sort_keys=True)
    if verbose is None and key in _CACHE:
        return _CACHE[key]
    out = _build(spec, verbose)
    if verbose is None:
        _CACHE[key] = out
    return out


def _build(spec, verbose):
    name = spec["name"]
    if name.startswith("BestSoFar"):
        return getattr(optx, name)(_build(spec["inner"], verbose))
    tol = dict(rtol=spec["rtol"], atol=spec["atol"])
    norm = NORMS[spec.get("norm", "max")]
    search, descent = spec.get("search"), spec.get("descent")
    vb = {} if verbose is None else dict(verbose=verbose)
    if name in ("BFGS", "DFP", "LBFGS"):
        inv = spec["inv"]
        hist = dict(history_length=spec["hist"]) if name == "LBFGS" else {}
        if search is None:
            return getattr(optx, name)(norm=norm, use_inverse=inv, **tol, **hist, **vb)
        cls = {"BFGS": CustomBFGS, "DFP": CustomDFP, "LBFGS": CustomLBFGS}[name]
        return cls(
            norm=norm,
            use_inverse=inv,
            search=build_search(search),
            descent=build_descent(descent),
            **tol,
            **hist,
            **vb,
        )
    if name == "GradientDescent":
        return optx.GradientDescent(spec["search"][1]["rate"], norm=norm, **tol)
    if name == "NonlinearCG":
        return optx.NonlinearCG(
            norm=norm, method=CG[descent[1]["method"]], search=build_search(search), **tol
        )
    if name == "CustomGD":
        return CustomGD(
            norm=norm, search=build_search(search), descent=build_descent(descent), **tol
        )
    if name in ("GaussNewton", "LevenbergMarquardt", "Dogleg"):
        ls = {} if spec.get("ls") is None else dict(linear_solver=_linear(spec["ls"]))
        return getattr(optx, name)(norm=norm, **tol, **ls, **vb)
    if name == "IndirectLevenbergMarquardt":
        return optx.IndirectLevenbergMarquardt(norm=norm, **tol, **vb)
    if name == "CustomGN":
        return CustomGN(
            norm=norm,
            search=build_search(search),
            descent=build_descent(descent),
            **tol,
            **vb,
        )
    if name in ("Newton", "Chord"):
        return getattr(optx, name)(
            norm=norm,
            kappa=spec.get("kappa", 1e-2),
            cauchy_termination=spec["cauchy"],
            **tol,
        )
    if name == "Bisection":
        return optx.Bisection(
            flip=spec["flip"], expand_if_necessary=spec.get("expand", False), **tol
        )
    if name == "FixedPointIteration":
        return optx.FixedPointIteration(norm=norm, damp=spec["damp"], **tol)
    if name == "GoldenSearch":
        return optx.GoldenSearch(**tol)
    if name == "NelderMead":
        return optx.NelderMead(
            norm=norm, rdelta=spec["rdelta"], adelta=spec["adelta"], **tol
        )
    if name == "OptaxMinimiser":
        import optax

        kind, rate = spec["optim"]
        if kind == "sgd":
            optim = optax.sgd(rate)
        elif kind == "momentum":
            optim = optax.sgd(rate, momentum=0.9)
        else:
            optim = optax.adam(rate)
        return optx.OptaxMinimiser(optim, norm=norm, **tol, **vb)
    raise ValueError(name)


def components(spec):
    """The (search, descent) a configuration stands for, with defaults filled in."""
    name = spec["name"]
    s, d = spec.get("search"), spec.get("descent")
    if name in ("BFGS", "DFP", "LBFGS") and s is None:
        return ["armijo", {}], ["newton", {"ls": "chol"}]
    if name == "GaussNewton":
        return ["lr", {"rate": 1.0}], ["newton", {}]
    if name == "LevenbergMarquardt":
        return ["classtr", {}], ["damped", {}]
    if name == "Dogleg":
        return ["classtr", {}], ["dogleg", {}]
    if name == "IndirectLevenbergMarquardt":
        return ["classtr", {}], ["indirect", {}]
    if name == "GradientDescent":
        return s, ["steepest", {}]
    return s, d


# Random configurations.


def _r(x, d=4):
    return round(float(x), d)


def pick_search(rng, allowed):
    kind = rng.choice(allowed)
    if kind == "armijo":
        if rng.random() < 0.4:
            return [kind, {}]
        return [
            kind,
            dict(
                decrease_factor=_r(rng.choice([0.5, 0.3, 0.7, rng.uniform(0.2, 0.8)])),
                slope=_r(rng.choice([0.1, 0.01, 0.3, rng.uniform(0.01, 0.45)])),
                step_init=_r(rng.choice([1.0, 1.0, 0.5, 2.0])),
            ),
        ]
    if kind in ("lintr", "classtr"):
        if rng.random() < 0.4:
            return [kind, {}]
        return [
            kind,
            dict(
                high_cutoff=_r(rng.choice([0.99, 0.75, rng.uniform(0.5, 1.2)])),
                low_cutoff=_r(rng.choice([0.01, 0.1, 0.25, rng.uniform(0.005, 0.4)])),
                high_constant=_r(rng.choice([3.5, 2.0, 1.5])),
                low_constant=_r(rng.choice([0.25, 0.5, rng.uniform(0.15, 0.7)])),
            ),
        ]
    return [kind, {"rate": _r(rng.choice([1.0, 0.5, 0.1, 0.05]))}]


def pick_tols(rng):
    return dict(
        rtol=rng.choice([1e-3, 1e-5, 1e-7, 1e-3, 1e-5, 1e-7, 0.05, 0.3]),
        atol=rng.choice([1e-3, 1e-5, 1e-7, 1e-3, 1e-5, 1e-7, 0.1]),
        norm=rng.choice(["max", "rms", "two"]),
    )


def pick(rng, group):
    """A random configuration from a group of solvers."""
    spec = pick_tols(rng)
    if group == "qn":
        spec["name"] = rng.choice(["BFGS", "DFP", "LBFGS", "BFGS", "LBFGS"])
        spec["inv"] = rng.random() < 0.5
        if spec["name"] == "LBFGS":
            spec["hist"] = rng.choice([1, 2, 3, 4, 10])
        if rng.random() < 0.55:
            if spec["inv"]:
                spec["search"] = pick_search(rng, ["armijo", "lintr", "armijo"])
                spec["descent"] = rng.choice(
                    [["newton", {}], ["newton", {}], ["steepest", {}]]
                )
            else:
                spec["search"] = pick_search(rng, ["armijo", "lintr", "classtr"])
                if spec["name"] == "LBFGS":
                    spec["descent"] = ["newton", {"ls": "chol"}]
                else:
                    spec["descent"] = rng.choice(
                        [
                            ["newton", {"ls": "chol"}],
                            ["damped", {"ls": "chol"}],
                            ["dogleg", {"ls": "chol"}],
                        ]
                    )
    elif group == "gd":
        spec["name"] = rng.choice(["GradientDescent", "NonlinearCG", "CustomGD"])
        if spec["name"] == "GradientDescent":
            spec["search"] = ["lr", {"rate": _r(rng.choice([0.3, 0.1, 0.05]))}]
        elif spec["name"] == "NonlinearCG":
            spec["search"] = pick_search(rng, ["armijo", "armijo", "lintr"])
            spec["descent"] = ["ncg", {"method": rng.choice(list(CG))}]
        else:
            spec["search"] = pick_search(rng, ["armijo", "lintr"])
            spec["descent"] = rng.choice(
                [
                    ["steepest", {}],
                    ["steepest", {"norm": rng.choice(["two", "max", "rms"])}],
                    ["ncg", {"method": rng.choice(list(CG))}],
                ]
            )
    elif group == "gn":
        spec["name"] = rng.choice(
            [
                "GaussNewton",
                "LevenbergMarquardt",
                "LevenbergMarquardt",
                "Dogleg",
                "IndirectLevenbergMarquardt",
                "CustomGN",
                "CustomGN",
            ]
        )
        if spec["name"] == "CustomGN":
            spec["search"] = pick_search(rng, ["armijo", "lintr", "classtr"])
            spec["descent"] = rng.choice(
                [
                    ["newton", {}],
                    ["damped", {}],
                    ["dogleg", {}],
                    ["steepest", {}],
                    ["ncg", {"method": rng.choice(list(CG))}],
                ]
            )
        spec["jac"] = rng.choice(["fwd", "fwd", "bwd"])
    elif group == "root":
        spec["name"] = rng.choice(["Newton", "Chord"])
        spec["cauchy"] = rng.random() < 0.6
        spec["kappa"] = rng.choice([1e-2, 1e-1, 1e-3])
        spec["box"] = rng.choice([None, None, "both", "lower", "upper"])
    elif group == "bisect":
        spec["name"] = "Bisection"
        spec["flip"] = rng.choice([True, False, "detect", "detect"])
        spec["expand"] = spec["flip"] == "detect" and rng.random() < 0.3
    elif group == "fp":
        spec["name"] = "FixedPointIteration"
        spec["damp"] = rng.choice([0.0, 0.0, 0.25, 0.5])
    elif group == "golden":
        spec["name"] = "GoldenSearch"
    elif group == "nm":
        spec["name"] = "NelderMead"
        spec["rdelta"] = rng.choice([5e-2, 1e-1])
        spec["adelta"] = rng.choice([2.5e-4, 1e-2])
    elif group == "optax":
        spec["name"] = "OptaxMinimiser"
        spec["optim"] = rng.choice(
            [["sgd", 0.1], ["sgd", 0.05], ["adam", 0.1], ["momentum", 0.03]]
        )
    else:
        raise ValueError(group)
    if group in ("qn", "gn") and spec.get("descent", [None])[0] == "newton":
        if rng.random() < 0.15:
            spec["descent"][1]["norm"] = rng.choice(list(NORMS))
    spec["group"] = group
    return spec


KIND = dict(
    qn="min",
    gd="min",
    optax="min",
    nm="min",
    golden="min",
    gn="lsq",
    root="root",
    bisect="root",
    fp="fp",
)


def pick_cell(rng, group, nmax=4):
    """A solver configuration with a problem shape: everything that decides which
    program is compiled."""
    from .evaluator import structs_for

    solver = pick(rng, group)
    kind = KIND[group]
    if group in ("bisect", "golden"):
        n = 1
        ys = "scal"
    else:
        n = rng.choice([1, 2, 3, nmax])
        ys = rng.choice(structs_for(n))
    if kind == "min":
        m, os_ = None, None
    elif group == "bisect":
        m, os_ = 1, "scal"
    elif kind == "lsq":
        m = n + rng.choice([0, 1, 3])
        os_ = rng.choice(structs_for(m))
    else:
        m, os_ = n, ys
    opts = {}
    if group in ("qn", "gd"):
        opts["autodiff_mode"] = rng.choice(["bwd", "bwd", "fwd"])
    if group == "gn":
        if n == m == 1:
            # lineax cannot solve with a 1x1 operator held as a pytree of another shape.
            solver["jac"] = "fwd"
        opts["jac"] = solver["jac"]
    return dict(
        solver=solver, group=group, kind=kind, n=n, m=m, ys=ys, os=os_, opts=opts
    )


def pick_slow(rng):
    """A configuration that needs hundreds of steps."""
    cell = pick_cell(rng, "fp")
    cell["solver"].update(damp=rng.choice([0.96, 0.97]), rtol=1e-5, atol=1e-6)
    return cell


FAMILIES = dict(
    qn=["quad", "rosen", "bumpy", "logcosh"],
    gd=["quad", "rosen", "bumpy", "logcosh"],
    optax=["quad", "logcosh"],
    nm=["quad", "rosen", "bumpy"],
    golden=["unimodal"],
    gn=["mild", "noisy", "rosres"],
    root=["mild"],
    bisect=["mono"],
    fp=["contract"],
)


def wrap_best(cell):
    name = dict(
        min="BestSoFarMinimiser",
        lsq="BestSoFarLeastSquares",
        root="BestSoFarRootFinder",
        fp="BestSoFarFixedPoint",
    )[cell["kind"]]
    cell = dict(cell)
    cell["solver"] = dict(name=name, inner=cell["solver"])
    return cell


def pick_problem(rng, cell, at_end=0.1):
    """Problem and start: data, not program."""
    family = rng.choice(FAMILIES[cell["group"]])
    prob = dict(family=family, seed=rng.randrange(1 << 30))
    spread = rng.choice([0.5, 1.5, 3.0])
    prob["y0"] = [_r(rng.uniform(-spread, spread), 3) for _ in range(cell["n"])]
    if rng.random() < at_end:
        # Start at, or next to, where a solve should end.
        c = Problem(family, cell["n"], cell["m"], prob["seed"]).c
        if family in ("rosen", "rosres"):
            c = np.ones(cell["n"])
        by = rng.choice([0.0, 1e-6, 1e-4, 1e-2])
        prob["y0"] = [_r(x + by * rng.uniform(-1, 1), 9) for x in c]
        prob["off"] = 0.0
    return prob


def np_norm(name, flat):
    flat = np.asarray(flat, np.float64).ravel()
    if flat.size == 0:
        return 0.0
    if name == "max":
        return float(np.max(np.abs(flat)))
    if name == "two":
        return float(np.sqrt(np.sum(flat**2)))
    return float(np.sqrt(np.mean(flat**2)))


def is_module(x):
    return isinstance(x, eqx.Module)
