"""Random sources owned by the explorer: every draw is a choice the harness made."""
import numpy as np


class Exhausted(Exception):
    pass


class ScriptedRNG(np.random.RandomState):
    """A RandomState whose uniform draws and index draws come from scripts.

    uniforms : values handed out, in order, to every real-valued uniform request
    indices  : values handed out, in order, to every integer/index request
    Every draw is recorded in .log as (kind, bound, value).
    """

    def __new__(cls, *a, **k):
        return np.random.RandomState.__new__(cls)

    def __init__(self, uniforms=(), indices=(), cycle=False):
        np.random.RandomState.__init__(self, 0)
        self._u = list(uniforms)
        self._i = list(indices)
        self._ui = self._ii = 0
        self._cycle = cycle
        self.log = []

    def __reduce__(self):
        return (ScriptedRNG, (self._u, self._i, self._cycle))

    def _next_u(self):
        if self._ui >= len(self._u):
            if not self._cycle or not self._u:
                raise Exhausted("uniform script exhausted")
            self._ui = 0
        v = self._u[self._ui]
        self._ui += 1
        self.log.append(("u", None, v))
        return v

    def _next_i(self, n):
        if self._ii >= len(self._i):
            if not self._cycle or not self._i:
                raise Exhausted("index script exhausted")
            self._ii = 0
        v = self._i[self._ii]
        self._ii += 1
        if not 0 <= v < n:
            raise Exhausted("scripted index %r outside [0,%r)" % (v, n))
        self.log.append(("i", n, v))
        return v

    def _us(self, size):
        if size is None:
            return self._next_u()
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([self._next_u() for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)

    # real-valued
    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._us(size)

    def random_sample(self, size=None):
        return self._us(size)

    def random(self, size=None):
        return self._us(size)

    def rand(self, *shape):
        return self._us(shape if shape else None)

    # index-valued
    def _is(self, n, size):
        if size is None:
            return int(self._next_i(n))
        shape = (size,) if np.isscalar(size) else tuple(size)
        return np.array([self._next_i(n) for _ in range(int(np.prod(shape)))], dtype=int).reshape(shape)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        r = self._is(high - low, size)
        return r + low

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if np.isscalar(a) else np.asarray(a)
        n = arr.shape[0]
        if p is not None:
            # inverse-CDF on a scripted uniform, as the documented algorithm does
            cdf = np.cumsum(np.asarray(p, dtype=float))
            cdf /= cdf[-1]
            u = self._us(size)
            return arr[np.searchsorted(cdf, u, side="right")]
        if not replace:
            k = 1 if size is None else int(np.prod(size))
            left = list(range(n))
            out = []
            for _ in range(k):
                out.append(left.pop(self._next_i(len(left))))
            res = arr[np.array(out, dtype=int)]
            return res[0] if size is None else res.reshape(size if not np.isscalar(size) else (size,))
        return arr[self._is(n, size)]

    def permutation(self, x):
        n = x if np.isscalar(x) else len(x)
        return self.choice(x if not np.isscalar(x) else n, size=n, replace=False)

    def shuffle(self, x):
        order = self.choice(len(x), size=len(x), replace=False)
        if isinstance(x, np.ndarray):
            x[...] = x[order].copy()
        else:
            x[:] = [x[i] for i in order]

    def random_integers(self, low, high=None, size=None):
        low, high = (1, low) if high is None else (low, high)
        return self.randint(low, high + 1, size)

    def ranf(self, size=None):
        return self._us(size)

    sample = ranf


class PathRNG(ScriptedRNG):
    """Index draws are choice points of a depth-first exploration; real-valued draws return programmed values and record their arguments.

    Attributes a check sets before a call:
      u        value (or list, cycled) returned by uniform draws
      values   list, cycled, of values returned (per element) by beta / normal / multivariate_normal draws
    .calls records (kind, parameters) of every element drawn.
    """

    def __init__(self, *a, **k):
        ScriptedRNG.__init__(self)
        self.u = [0.5]
        self.values = [0.0]
        self._vi = 0
        self.calls = []
        self.prefix = []
        self.trace = []

    def __reduce__(self):
        return (PathRNG, (), dict(u=self.u, values=self.values, calls=list(self.calls), prefix=list(self.prefix), trace=list(self.trace), _vi=self._vi, _ui=self._ui))

    def __setstate__(self, st):
        self.__dict__.update(st)

    def program(self, u=None, values=None):
        if u is not None:
            self.u = list(u) if isinstance(u, (list, tuple)) else [u]
        if values is not None:
            self.values = list(values)
        self._ui = self._vi = 0
        self.calls = []
        self.prefix = []
        self.trace = []
        return self

    def _next_u(self):
        v = self.u[self._ui % len(self.u)]
        self._ui += 1
        return v

    def _next_i(self, n):
        k = len(self.trace)
        v = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((v, n))
        return v

    def _val(self):
        v = self.values[self._vi % len(self.values)]
        self._vi += 1
        return v

    def _bcast(self, kind, params, size):
        arrs = np.broadcast_arrays(*[np.asarray(p, dtype=float) for p in params])
        if size is not None:
            shape = (size,) if np.isscalar(size) else tuple(size)
            arrs = [np.broadcast_to(a, shape) for a in arrs]
        out = np.empty(arrs[0].shape)
        flat = out.reshape(-1)
        cols = [a.reshape(-1) for a in arrs]
        for i in range(flat.shape[0]):
            self.calls.append((kind,) + tuple(float(cc[i]) for cc in cols))
            flat[i] = self._val()
        return out if out.shape else float(out)

    def beta(self, a, b, size=None):
        return self._bcast("beta", (a, b), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._bcast("normal", (loc, scale), size)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def randn(self, *shape):
        return self.normal(0.0, 1.0, shape or None)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        mean = np.array(mean, dtype=float)
        shape = () if size is None else ((size,) if np.isscalar(size) else tuple(size))
        out = []
        for _ in range(int(np.prod(shape))):
            self.calls.append(("mvn", mean, np.array(cov, dtype=float)))
            out.append(np.array(self._val(), dtype=float) if np.ndim(self.values[0]) else np.array([self._val() for _ in range(mean.shape[0])]))
        return np.array(out).reshape(shape + mean.shape)


def all_paths(rng, fn, limit=200000):
    """Run fn() for every outcome of the index draws it makes; yields (probability, result)."""
    from fractions import Fraction

    prefix = []
    for _ in range(limit):
        rng.prefix = list(prefix)
        rng.trace = []
        rng._ui = rng._vi = 0
        res = fn()
        p = Fraction(1)
        for _, n in rng.trace:
            p /= n
        yield p, res
        tr = list(rng.trace)
        while tr and tr[-1][0] + 1 >= tr[-1][1]:
            tr.pop()
        if not tr:
            return
        prefix = [v for v, _ in tr[:-1]] + [tr[-1][0] + 1]
    raise Exhausted("path limit")


class WorldRNG(PathRNG):
    """PathRNG that also owns binomial, gumbel and standard-normal draws (binomial draws compare the next programmed uniform with p)."""

    def __init__(self, *a, **k):
        PathRNG.__init__(self)
        self.gumbels = [0.0]
        self._gi = 0
        self.ub = None  # separate uniforms for binomial draws, if wanted
        self._ubi = 0

    def __reduce__(self):
        st = PathRNG.__reduce__(self)[2]
        st.update(gumbels=self.gumbels, _gi=self._gi, ub=self.ub, _ubi=self._ubi)
        return (WorldRNG, (), st)

    def program(self, u=None, values=None, gumbels=None, ub=None):
        PathRNG.program(self, u, values)
        if gumbels is not None:
            self.gumbels = list(gumbels)
        self.ub = list(ub) if ub is not None else None
        self._gi = self._ubi = 0
        return self

    def binomial(self, n, p, size=None):
        p = np.asarray(p, dtype=float)
        if size is not None:
            p = np.broadcast_to(p, size)
        out = np.empty(p.shape, dtype=int)
        f = out.reshape(-1)
        for i, v in enumerate(p.reshape(-1)):
            self.calls.append(("binomial", int(n), float(v)))
            if self.ub is not None:
                x = self.ub[self._ubi % len(self.ub)]
                self._ubi += 1
            else:
                x = self._next_u()
            f[i] = int(x < v)
        return out if out.shape else int(out)

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        shape = () if size is None else ((size,) if np.isscalar(size) else tuple(size))
        out = np.empty(shape)
        f = out.reshape(-1)
        for i in range(f.shape[0]):
            self.calls.append(("gumbel", float(loc), float(scale)))
            f[i] = loc + scale * self.gumbels[self._gi % len(self.gumbels)]
            self._gi += 1
        return out if shape else float(out)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def randn(self, *shape):
        return self.normal(0.0, 1.0, shape or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        """standard programmed value, shifted and scaled"""
        z = self._bcast("normal", (loc, scale), size)
        return np.asarray(loc) + np.asarray(scale) * z if np.shape(z) else float(loc + scale * z)


class BranchRNG(ScriptedRNG):
    """Every discrete draw (choice with or without p, binomial, randint) is a weighted choice point of a depth-first exploration.

    weighted_paths(rng, fn) runs fn for every outcome with positive probability and yields (probability, result).
    Uniform draws return programmed values (u, cycled), normal draws programmed standard values (values, cycled).
    """

    def __init__(self, *a, **k):
        ScriptedRNG.__init__(self)
        self.u = [0.5]
        self.values = [0.25, -1.0, 0.75, 2.0, -0.5]
        self._vi = 0
        self.prefix = []
        self.trace = []

    def __reduce__(self):
        return (BranchRNG, (), dict(self.__dict__))

    def __setstate__(self, st):
        self.__dict__.update(st)

    def _next_u(self):
        v = self.u[self._ui % len(self.u)]
        self._ui += 1
        return v

    def _branch(self, probs):
        probs = [float(p) for p in probs]
        k = len(self.trace)
        live = [i for i, p in enumerate(probs) if p > 1e-15]
        v = self.prefix[k] if k < len(self.prefix) else live[0]
        self.trace.append((v, probs, live))
        return v

    def _next_i(self, n):
        return self._branch([1.0 / n] * n)

    def choice(self, a, size=None, replace=True, p=None):
        if p is None:
            return ScriptedRNG.choice(self, a, size=size, replace=replace)
        arr = np.arange(a) if np.isscalar(a) else np.asarray(a)
        p = np.asarray(p, dtype=float)
        if abs(p.sum() - 1) > 1e-8:
            raise ValueError("probabilities do not sum to 1")
        k = 1 if size is None else int(np.prod(size))
        out = []
        q = p.copy()
        for _ in range(k):
            i = self._branch(q / q.sum())
            out.append(i)
            if not replace:
                q[i] = 0.0
        res = arr[np.array(out, dtype=int)]
        return res[0] if size is None else res.reshape((size,) if np.isscalar(size) else size)

    def binomial(self, n, p, size=None):
        p = np.asarray(p, dtype=float)
        if (p < 0).any() or (p > 1).any():
            raise ValueError("p < 0, p > 1 or p is NaN")
        if size is not None:
            p = np.broadcast_to(p, size)
        out = np.empty(p.shape, dtype=int)
        f = out.reshape(-1)
        for i, v in enumerate(p.reshape(-1)):
            f[i] = sum(self._branch([1 - v, v]) for _ in range(int(n)))
        return out if out.shape else int(out)

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else ((size,) if np.isscalar(size) else tuple(size))
        z = np.empty(shape)
        f = z.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = self.values[self._vi % len(self.values)]
            self._vi += 1
        z = loc + scale * z
        return z if shape else float(z)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape or None)


def weighted_paths(rng, fn, limit=500000):
    prefix = []
    for _ in range(limit):
        rng.prefix = list(prefix)
        rng.trace = []
        rng._ui = rng._vi = 0
        res = fn()
        w = 1.0
        for v, probs, _ in rng.trace:
            w *= probs[v]
        yield w, res
        tr = list(rng.trace)
        while tr:
            v, probs, live = tr[-1]
            nxt = [i for i in live if i > v]
            if nxt:
                break
            tr.pop()
        if not tr:
            return
        prefix = [v for v, _, _ in tr[:-1]] + [nxt[0]]
    raise Exhausted("path limit")
