"""Problem families, evaluated on the host in NumPy. Each is `y -> (value, jacobian)`
on flat vectors, and is a pure function of its parameters."""

import numpy as np


def _gen(seed):
    return np.random.Generator(np.random.PCG64(seed))


class Problem:
    """`ev(y) -> (v, J)`; `v` has shape () for scalar outputs, else (m,)."""

    def __init__(self, family, n, m, seed, scale=1.0):
        self.family, self.n, self.m, self.seed = family, n, m, seed
        g = _gen(seed)
        self.c = np.round(g.uniform(-2, 2, n), 3)
        self.solution = self.c
        q, _ = np.linalg.qr(g.normal(size=(n, n)))
        eigs = g.uniform(0.5, 3.0, n) * scale
        self.A = (q * eigs) @ q.T
        self.q = float(np.round(g.uniform(0.0, 0.3), 3))
        self.b = float(np.round(g.uniform(2.0, 10.0), 2))
        self.off = float(np.round(g.uniform(0.0, 2.0), 3))
        if m is not None:
            M = g.normal(size=(m, n))
            u, s, vt = np.linalg.svd(M, full_matrices=False)
            s = g.uniform(0.7, 2.5, min(m, n))
            self.M = (u * s) @ vt
            self.k = np.round(g.uniform(0.0, 0.2, m), 3)
            self.r0 = np.round(g.normal(size=m) * 0.3, 3)
        self.sign = 1.0 if g.uniform() < 0.5 else -1.0
        self.slope = float(np.round(g.uniform(0.5, 3.0), 3))
        self._fn = getattr(self, "_" + family)

    def ev(self, y):
        return self._fn(np.asarray(y, np.float64))

    def second(self, y):
        """Second derivatives: of each component, a symmetric matrix."""
        y = np.asarray(y, np.float64)
        h = 1e-5
        cols = []
        for k in range(self.n):
            e = np.zeros(self.n)
            e[k] = h
            cols.append((np.asarray(self.ev(y + e)[1]) - np.asarray(self.ev(y - e)[1])) / (2 * h))
        H = np.stack(cols, axis=-1)
        return 0.5 * (H + np.swapaxes(H, -1, -2))

    # scalar-valued
    def _quad(self, y):
        d = y - self.c
        Ad = self.A @ d
        v = 0.5 * d @ Ad + 0.25 * self.q * np.sum(d**4) + self.off
        return v, Ad + self.q * d**3

    def _rosen(self, y):
        if self.n == 1:
            return (y[0] - 1) ** 2 + self.off, 2 * (y - 1)
        a, b = y[:-1], y[1:]
        r1 = b - a**2
        r2 = 1 - a
        v = np.sum(self.b * r1**2 + r2**2)
        g = np.zeros_like(y)
        g[:-1] += -4 * self.b * a * r1 - 2 * r2
        g[1:] += 2 * self.b * r1
        return v, g

    def _bumpy(self, y):
        v, g = self._quad(y)
        w = 2.0 + np.arange(self.n)
        return v + 0.4 * np.sum(np.sin(w * y)), g + 0.4 * w * np.cos(w * y)

    # The value drops towards the minimum only slowly: many short steps.
    def _logcosh(self, y):
        d = self.A @ (y - self.c)
        ad = np.abs(d)
        v = np.sum(ad + np.log1p(np.exp(-2 * ad)) - np.log(2.0)) + self.off
        return v, self.A.T @ np.tanh(d)

    # Single-variable, unimodal.
    def _unimodal(self, y):
        d = y[0] - self.c[0]
        v = self.slope * d * d + 0.3 * np.abs(d) + self.off
        return v, np.array([2 * self.slope * d + 0.3 * np.sign(d)])

    # vector-valued
    def _mild(self, y):
        d = y - self.c
        z = self.M @ d
        v = z + self.k * z**3
        return v, (1 + 3 * self.k * z**2)[:, None] * self.M

    def _noisy(self, y):  # nonzero residual at the solution
        v, J = self._mild(y)
        return v + self.r0, J

    def _rosres(self, y):
        n, m = self.n, self.m
        v = np.zeros(m)
        J = np.zeros((m, n))
        for i in range(m):
            if i < n and i % 2 == 0:
                v[i] = 1 - y[i]
                J[i, i] = -1.0
            elif i < n:
                v[i] = self.b * (y[i] - y[i - 1] ** 2)
                J[i, i] = self.b
                J[i, i - 1] = -2 * self.b * y[i - 1]
            else:
                v[i] = 0.1 * (y[i % n] - 1)
                J[i, i % n] = 0.1
        return v, J

    # Square maps whose fixed point is `c`.
    def _contract(self, y):
        d = y - self.c
        T = 0.6 * self.A / np.linalg.norm(self.A, 2)
        t = np.tanh(d)
        return self.c + T @ t, T * (1 - t**2)[None, :]

    # Single-variable, monotone, root at `c`.
    def _mono(self, y):
        d = y - self.c
        v = self.sign * (self.slope * d + self.q * d**3)
        return v, np.diag(self.sign * (self.slope + 3 * self.q * d**2))


SCALAR = ("quad", "rosen", "bumpy", "logcosh", "unimodal")
