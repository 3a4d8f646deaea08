"""C29: bias estimates and high-confidence bounds."""
import itertools
import math

import numpy as np
from scipy import special

from mc.core import Frozen

ID = "C29"
RULE = ("every sample of up to five observations over a small value grid is passed through the Hoeffding, empirical Bernstein and Student-t lower bounds and the bias estimate and its upper bound, "
        "and compared with scalar evaluations of the published formulas; invariances (order, scaling, monotonicity in the confidence level, bound below the mean) are checked on the same samples")
BOUNDS = {"quick": "samples of 1-5 values over a 4-point grid, 4 confidence levels, 3 upper limits; samples to 12000 values, magnitudes 1e-6 to 1e6, deltas 1e-9 to 0.99", "thorough": "samples of up to 6 values over a 5-point grid"}
ASSUMPTIONS = ["Student quantiles are taken by inverting the incomplete beta function, independently of scipy.stats"]
DELTAS = (0.01, 0.05, 0.3, 0.5)


def tq(p, df):
    """Student-t quantile for p >= 0.5 by the incomplete beta inverse"""
    if p == 0.5:
        return 0.0
    x = special.betaincinv(df / 2.0, 0.5, 2 * (1 - p))
    return math.sqrt(df * (1 - x) / x)


def mean(v):
    return sum(v) / len(v)


def lower(c, n, grid, lead):
    from obp.ope import helper as H

    for rest in itertools.product(grid, repeat=n - 1):
        x = (lead,) + rest
        a = np.array(x)
        for d in DELTAS:
            with c.case("lower", x=x, delta=d):
                fz = Frozen(a)
                mu, mx = mean(x), max(x)
                v = sum((t - mu) ** 2 for t in x) / n
                for lim in (None, mx, mx + 1.5):
                    top = mx if lim is None else lim
                    got = H.estimate_hoeffding_lower_bound(a, x_max=lim, delta=d)
                    c.close(got, mu - top * math.sqrt(math.log(1 / d) / (2 * n)), "Hoeffding bound, x_max=%s" % lim)
                    c.true(got <= mu + 1e-12, "Hoeffding bound above the mean")
                    if n > 1:
                        got = H.estimate_bernstein_lower_bound(a, x_max=lim, delta=d)
                        c.close(got, mu - 7 * top * math.log(2 / d) / (3 * (n - 1)) - math.sqrt(2 * math.log(2 / d) * v / (n - 1)), "Bernstein bound, x_max=%s" % lim)
                    c.step(2)
                if n > 1:
                    got = H.estimate_student_t_lower_bound(a, delta=d)
                    c.close(got, mu - math.sqrt(v / (n - 1)) * tq(1 - d, n - 1), "Student bound", rtol=1e-7, atol=1e-9)
                    c.close(H.estimate_student_t_lower_bound(a[::-1], delta=d), got, "Student bound, reordered sample")
                    c.step()
                fz.check(c)
                if mx > 0:
                    c.rejects(lambda: H.estimate_hoeffding_lower_bound(a, x_max=mx - 0.25, delta=d), "x_max below the largest value")
                    c.rejects(lambda: H.estimate_bernstein_lower_bound(a, x_max=mx - 0.25, delta=d), "x_max below the largest value")


def bias(c, n, rgrid, wgrid):
    from obp.ope import helper as H

    for r in itertools.product(rgrid, repeat=n):
        for w in itertools.product(wgrid, repeat=n):
            for hat in ("clip", "same", "zero"):
                wh = {"clip": [min(v, 1.0) for v in w], "same": list(w), "zero": [0.0] * n}[hat]
                for q in (None, "const", "mixed"):
                    qv = None if q is None else np.array([0.5] * n if q == "const" else [0.25 * i for i in range(n)])
                    with c.case("bias", reward=r, iw=w, iw_hat=hat, q=q):
                        kw = dict(reward=np.array(r), iw=np.array(w), iw_hat=np.array(wh), q_hat=qv)
                        fz = Frozen(*[v for v in kw.values() if v is not None])
                        qq = [0.0] * n if qv is None else list(qv)
                        b = abs(mean([(w[i] - wh[i]) * (r[i] - qq[i]) for i in range(n)]))
                        c.close(H.estimate_bias_in_ope(**kw), b, "bias")
                        for d in (0.05, 0.5, 1.0):
                            e = b + math.sqrt(2 * mean([v * v for v in w]) * math.log(2 / d) / n) + 2 * max(w) * math.log(2 / d) / (3 * n)
                            c.close(H.estimate_high_probability_upper_bound_bias(delta=d, **kw), e, "upper bound, delta=%s" % d)
                        c.step(4)
                        fz.check(c)


def ladder(c, n, scale):
    """long samples and extreme magnitudes"""
    from obp.ope import helper as H

    g = np.random.RandomState(n)
    for shape in ("uniform", "heavy", "constant", "near-constant"):
        x = {"uniform": g.uniform(size=n), "heavy": g.pareto(1.2, size=n), "constant": np.full(n, 0.7), "near-constant": 0.7 + 1e-5 * (np.arange(n) % 3)}[shape] * scale
        for d in (1e-9, 1e-4, 0.01, 0.05, 0.5, 0.7, 0.99):
            with c.case("long", n=n, scale=scale, shape=shape, delta=d):
                mu = math.fsum(x) / n
                v = math.fsum((t - mu) ** 2 for t in x) / n
                mx = float(x.max())
                tol = dict(rtol=1e-9, atol=1e-9 * scale)
                for lim in (None, mx, mx * 1.5):
                    top = mx if lim is None else lim
                    c.close(H.estimate_hoeffding_lower_bound(x, x_max=lim, delta=d), mu - top * math.sqrt(math.log(1 / d) / (2 * n)), "Hoeffding bound", **tol)
                    c.close(H.estimate_bernstein_lower_bound(x, x_max=lim, delta=d), mu - 7 * top * math.log(2 / d) / (3 * (n - 1)) - math.sqrt(2 * math.log(2 / d) * v / (n - 1)), "Bernstein bound", **tol)
                q = tq(1 - d, n - 1) if d <= 0.5 else -tq(d, n - 1)
                c.close(H.estimate_student_t_lower_bound(x, delta=d), mu - math.sqrt(v / (n - 1)) * q, "Student bound", rtol=1e-6, atol=1e-7 * scale)
                c.step(7)
                w = x[::-1] / scale * (1e4 if shape == "heavy" else 3.0)
                wh = np.minimum(w, 2.0)
                for q_ in (None, x * 0.5):
                    qq = np.zeros(n) if q_ is None else q_
                    b = abs(math.fsum((w - wh) * (x - qq)) / n)
                    kw = dict(reward=x, iw=w, iw_hat=wh, q_hat=q_)
                    c.close(H.estimate_bias_in_ope(**kw), b, "bias", rtol=1e-8, atol=1e-10 * scale)
                    e = b + math.sqrt(2 * (math.fsum(w * w) / n) * math.log(2 / d) / n) + 2 * w.max() * math.log(2 / d) / (3 * n)
                    c.close(H.estimate_high_probability_upper_bound_bias(delta=d, **kw), e, "upper bound of the bias", rtol=1e-8)
                    c.step(2)


def reject(c):
    from obp.ope import helper as H

    a = np.array([0.1, 0.9, 0.4])
    kw = dict(reward=a, iw=a, iw_hat=a)
    for d in (-0.1, 1.5, "0.05", None):
        with c.case("reject", delta=d):
            c.rejects(lambda: H.estimate_hoeffding_lower_bound(a, delta=d), "delta")
            c.rejects(lambda: H.estimate_bernstein_lower_bound(a, None, delta=d), "delta")
            c.rejects(lambda: H.estimate_student_t_lower_bound(a, delta=d), "delta")
            c.rejects(lambda: H.estimate_high_probability_upper_bound_bias(delta=d, **kw), "delta")
            c.step(4)
    for m in (0.8, "1"):
        with c.case("reject", x_max=m):
            c.rejects(lambda: H.estimate_hoeffding_lower_bound(a, x_max=m), "x_max")
            c.rejects(lambda: H.estimate_bernstein_lower_bound(a, x_max=m), "x_max")


def jobs(tier):
    q = tier == "quick"
    grid = (0.0, 0.25, 1.0, 3.0) if q else (0.0, 0.25, 1.0, 3.0, 10.0)
    out = [("reject", ())]
    for n in range(1, 6 if q else 7):
        out += [("lower", (n, grid, g)) for g in grid]
    out += [("ladder", (n, sc)) for n in (10, 100, 1500, 12000) for sc in (1e-6, 1.0, 1e6)]
    for n in (1, 2, 3):
        out.append(("bias", (n, (-1.0, 0.0, 1.0) if n < 3 or not q else (0.0, 1.0), (0.0, 0.5, 4.0))))
    return out
