"""C16: coefficient drift, every way of splitting T rounds into requests."""
import itertools
from unittest import mock

import numpy as np

from mc.rng import PathRNG

ID = "C16"
RULE = ("every composition of T rounds into get_coefficients requests, for every drift configuration; the concatenated coefficients must equal the closed-form blend of the interval endpoints at each round index, "
        "and (real coefficient sampler, sampled transitions) must not depend on the composition")
BOUNDS = {"quick": "T=8 (all 128 compositions) x intervals 1-4 x transition 0-5 x {linear, sampled} x seasonal x 3 base weights; T=60 ladder", "thorough": "T=11 (1024 compositions)"}
ASSUMPTIONS = ["coefficient endpoints are made recognisable through the same module-level sampler name the repository's own tests replace"]
TARGET = "obp.simulator.coefficient_drifter.sample_random_uniform_coefficients"


class Fake:
    """k-th endpoint: recognisable, different for each of the three coefficient groups and entries"""

    def __init__(self):
        self.k = 0

    def __call__(self, effective_dim_action_context, effective_dim_context, random_, **kw):
        self.k += 1
        return endpoint(self.k - 1, effective_dim_context, effective_dim_action_context)


def endpoint(k, dc, da):
    s = [0.0, 1.0, -2.0, 3.5, 7.25, -5.5][k % 6] + 11.0 * (k // 6)
    return (s + 0.125 * np.arange(1, dc + 1), 2 * s + 1 + 0.25 * np.arange(da), 3 * s - 1 + 0.5 * np.arange(dc * da).reshape(dc, da))


def compositions(T):
    for mask in range(1 << (T - 1)):
        out, run = [], 1
        for b in range(T - 1):
            if mask >> b & 1:
                out.append(run)
                run = 1
            else:
                run += 1
        yield out + [run]


def expected(T, D, tp, seasonal, bw, dc, da, u=None):
    rows = [[], [], []]
    base = endpoint(0, dc, da)
    for t in range(T):
        k, j = divmod(t, D)  # interval and offset
        a, b = (endpoint(k % 2, dc, da), endpoint((k + 1) % 2, dc, da)) if seasonal else (endpoint(k, dc, da), endpoint(k + 1, dc, da))
        w = max(0, j + 1 - (D - tp)) / (tp + 1)
        if u is not None:
            w = 1.0 if u < w else 0.0
        for g in range(3):
            rows[g].append(bw * base[g] + (1 - bw) * ((1 - w) * a[g] + w * b[g]))
    return [np.array(r) for r in rows]


class BinRNG(PathRNG):
    def __reduce__(self):
        return (BinRNG, (), PathRNG.__reduce__(self)[2])

    def binomial(self, n, p, size=None):
        p = np.asarray(p, dtype=float)
        r = (self.u[0] < p).astype(int) * n
        return r if r.shape else int(r)


def request(c, d, comp, dc, da, late, kwargs):
    outs = [[], [], []]
    for i, n in enumerate(comp):
        kw = dict(kwargs)
        if late and (i == 0 or i % 2):
            kw.update(effective_dim_context=dc, effective_dim_action_context=da)
        r = d.get_coefficients(n_rounds=n, **kw)
        c.step()
        for g, e in enumerate(((n, dc), (n, da), (n, dc, da))):
            c.same(np.shape(r[g]), e, "shape of coefficient group %d in request %d" % (g, i))
            outs[g].append(r[g])
    return [np.concatenate(o) for o in outs]


def linear(c, D, tp, T):
    from obp.simulator.coefficient_drifter import CoefficientDrifter

    for seasonal, bw, dims in itertools.product((False, True), (0.0, 0.3, 1.0), ((2, 3), (1, 1))):
        dc, da = dims
        exp = expected(T, D, tp, seasonal, bw, dc, da)
        for comp in compositions(T):
            for late in (False, True):
                if late and dims == (1, 1):
                    continue
                with c.case("linear", D=D, tp=tp, seasonal=seasonal, bw=bw, dims=dims, chunks=comp, late_dims=late), mock.patch(TARGET, Fake()):
                    kw = {} if late else dict(effective_dim_context=dc, effective_dim_action_context=da)
                    d = CoefficientDrifter(drift_interval=D, transition_period=tp, seasonal=seasonal, base_coefficient_weight=bw, random_state=1, **kw)
                    got = request(c, d, comp, dc, da, late, {"random_": d.random_} if late else {})
                    for g in range(3):
                        c.close(got[g], exp[g], "coefficient group %d" % g)


def sampled(c, D, tp, T):
    """sampled transitions: with a programmed draw the choice of endpoint is determined; with real seeds it must not depend on the split"""
    from obp.simulator.coefficient_drifter import CoefficientDrifter

    for seasonal, bw in itertools.product((False, True), (0.0, 0.3)):
        for u in (0.0, 0.19, 0.34, 0.55, 0.9):
            exp = expected(T, D, tp, seasonal, bw, 2, 2, u=u)
            for comp in compositions(T):
                if len(comp) > 4 and comp != [1] * T:
                    continue
                with c.case("sampled-scripted", D=D, tp=tp, seasonal=seasonal, bw=bw, u=u, chunks=comp), mock.patch(TARGET, Fake()):
                    rng = BinRNG()
                    rng.program(u=u)
                    d = CoefficientDrifter(drift_interval=D, transition_period=tp, transition_type="weighted_sampled", seasonal=seasonal, base_coefficient_weight=bw, random_state=rng,
                                           effective_dim_context=2, effective_dim_action_context=2)
                    got = request(c, d, comp, 2, 2, False, {})
                    for g in range(3):
                        c.close(got[g], exp[g], "coefficient group %d" % g)


def seeds(c, D, tp, T):
    """the real coefficient sampler: identical for every composition, and for identical seeds"""
    from obp.simulator.coefficient_drifter import CoefficientDrifter

    for seasonal, bw, tt, seed in itertools.product((False, True), (0.0, 0.3), ("linear", "weighted_sampled"), (1, 12345)):
        ref = None
        for comp in [[T]] + list(compositions(T)):
            with c.case("seeded", D=D, tp=tp, seasonal=seasonal, bw=bw, type=tt, seed=seed, chunks=comp):
                d = CoefficientDrifter(drift_interval=D, transition_period=tp, transition_type=tt, seasonal=seasonal, base_coefficient_weight=bw, random_state=seed, effective_dim_context=2, effective_dim_action_context=3)
                got = request(c, d, comp, 2, 3, False, {})
                if ref is None:
                    ref = got
                for g in range(3):
                    c.close(got[g], ref[g], "coefficient group %d compared with a single request" % g)
                if tt == "linear" and tp < D:
                    # untouched rounds of an interval are constant
                    for t in range(1, T):
                        if t % D and t % D < D - tp:
                            c.close(got[0][t], got[0][t - 1], "coefficients outside the transition period")


def ladder(c):
    from obp.simulator.coefficient_drifter import CoefficientDrifter

    for D, tp, seasonal, bw in itertools.product((7, 20, 45, 61), (0, 5, 19), (False, True), (0.0, 0.4)):
        exp = expected(60, D, tp, seasonal, bw, 3, 4)
        for comp in ([60], [1] * 60, [17, 43], [7] * 8 + [4], [20, 20, 20], [44, 1, 15], [59, 1], [5, 10, 15, 30]):
            with c.case("ladder", D=D, tp=tp, seasonal=seasonal, bw=bw, chunks=comp), mock.patch(TARGET, Fake()):
                d = CoefficientDrifter(drift_interval=D, transition_period=tp, seasonal=seasonal, base_coefficient_weight=bw, random_state=1, effective_dim_context=3, effective_dim_action_context=4)
                got = request(c, d, comp, 3, 4, False, {})
                for g in range(3):
                    c.close(got[g], exp[g], "coefficient group %d" % g)


def far(c, T, D, tp):
    """long runs: rounds far beyond the first interval, large requests"""
    from obp.simulator.coefficient_drifter import CoefficientDrifter

    for seasonal, bw in itertools.product((False, True), (0.0, 0.4)):
        exp = expected(T, D, tp, seasonal, bw, 2, 3)
        for comp in ([T], [T // 2, T - T // 2], [1] * (T // 4) + [T - T // 4], [97] * (T // 97) + [T % 97 or 97][: 1 if T % 97 else 0]):
            with c.case("far", T=T, D=D, tp=tp, seasonal=seasonal, bw=bw, chunks=[comp[0], comp[-1], len(comp)]), mock.patch(TARGET, Fake()):
                d = CoefficientDrifter(drift_interval=D, transition_period=tp, seasonal=seasonal, base_coefficient_weight=bw, random_state=1, effective_dim_context=2, effective_dim_action_context=3)
                got = request(c, d, comp, 2, 3, False, {})
                for g in range(3):
                    c.close(got[g], exp[g], "coefficient group %d" % g)


def dims(c):
    from obp.simulator.coefficient_drifter import CoefficientDrifter

    for a, b in itertools.product(((2, 3), (3, 2), (2, 2)), repeat=2):
        for early in (True, False):
            with c.case("dims", first=a, second=b, early=early):
                kw = dict(effective_dim_context=a[0], effective_dim_action_context=a[1]) if early else {}
                d = CoefficientDrifter(drift_interval=3, random_state=1, **kw)
                d.get_coefficients(n_rounds=2, effective_dim_context=a[0], effective_dim_action_context=a[1])
                call = lambda: d.get_coefficients(n_rounds=2, effective_dim_context=b[0], effective_dim_action_context=b[1])
                if a == b:
                    call()
                else:
                    c.rejects(call, "changing the dimensions from %s to %s" % (a, b), exc=(RuntimeError, ValueError))


def jobs(tier):
    T = 11 if tier == "thorough" else 8
    cfg = [(D, tp) for D in (1, 2, 3, 4) for tp in (0, 1, 2, 3, 5)]
    return ([("linear", (D, tp, T)) for D, tp in cfg] + [("sampled", (D, tp, T)) for D, tp in cfg if tp] + [("seeds", (D, tp, T - 1)) for D, tp in cfg] + [("ladder", ()), ("dims", ())] + [("far", x) for x in ((1200, 7, 3), (1200, 250, 100), (900, 3, 3), (1500, 5000, 10), (600, 1, 1), (800, 130, 0))])
