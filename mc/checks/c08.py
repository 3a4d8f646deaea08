"""C08: hyper-parameter tuning picks what its criterion selects."""
import itertools
import math

import numpy as np

from mc import ref_discrete as ref
from mc.checks import c01
from mc.core import Frozen
from mc.rng import ScriptedRNG

ID = "C08"
RULE = ("every tunable estimator x tuning method x bias option x confidence level x propensity source is run, for every subset (and every order of small subsets) of a candidate menu, "
        "on every log of a menu; the returned value must be the plain estimator's value at a candidate admissible under the criterion (ties within 1e-9 admit both)")
BOUNDS = {"quick": "all logs of 2-3 rounds over a 12-row alphabet with the full menu; logs of every length 2-160 with 2-6 candidates and reward scales 2^-24..2^24; all 31 subsets of 5 candidates and all orders of 3 candidates on a ladder of 14 logs up to 300 rounds; histories of 3 calls over 3 logs",
          "thorough": "all logs of 2-3 rounds over a 24-row alphabet; ladder up to 2000 rounds; histories of 4 calls"}
ASSUMPTIONS = ["SLOPE needs at least two rounds (the t-interval is undefined for one)"]
INF = float("inf")
MENU = {"ipw": [0.0, 0.5, 1.0, 3, INF], "dr": [0.0, 0.5, 2.0, 3.0, INF], "switch-dr": [0.0, 0.75, 1.0, 4, INF],
        "dr-os": [0.0, 0.5, 1.0, 10.0, INF], "sg-ipw": [0.0, 0.05, 0.25, 0.5, 0.9], "sg-dr": [0.0, 0.1, 0.3, 0.5, 0.9]}
_T = {}


def classes():
    from obp import ope
    return {"ipw": (ope.InverseProbabilityWeightingTuning, ope.InverseProbabilityWeighting), "dr": (ope.DoublyRobustTuning, ope.DoublyRobust),
            "switch-dr": (ope.SwitchDoublyRobustTuning, ope.SwitchDoublyRobust),
            "dr-os": (ope.DoublyRobustWithShrinkageTuning, ope.DoublyRobustWithShrinkage),
            "sg-ipw": (ope.SubGaussianInverseProbabilityWeightingTuning, ope.SubGaussianInverseProbabilityWeighting),
            "sg-dr": (ope.SubGaussianDoublyRobustTuning, ope.SubGaussianDoublyRobust)}


def tquant(df, q):
    if (df, q) not in _T:
        from scipy.special import stdtrit
        _T[(df, q)] = float(stdtrit(df, q))
    return _T[(df, q)]


def var(xs):
    m = ref.mean(xs)
    return sum((x - m) ** 2 for x in xs) / len(xs)


def shrunk(kind, w, lam):
    if kind in ("ipw", "dr"):
        return min(w, lam)
    if kind == "switch-dr":
        return w if w <= lam else 0.0
    if kind == "dr-os":
        return ref.shrink_os(w, lam)
    return ref.shrink_sg(w, lam)


def mse(kind, rows, lam, upper, delta):
    n = len(rows)
    v = var(ref.rounds(kind, rows, lam)) / n
    w = [x["pi"][x["a"]] / x["p"] for x in rows]
    dr = kind not in ("ipw", "sg-ipw")
    b = abs(ref.mean([(a - shrunk(kind, a, lam)) * (x["r"] - (x["q"][x["a"]] if dr else 0.0)) for a, x in zip(w, rows)]))
    if upper:
        b += math.sqrt(2 * ref.mean([a * a for a in w]) * math.log(2 / delta) / n) + 2 * max(w) * math.log(2 / delta) / (3 * n)
    return v + b * b


def admissible(kind, rows, lams, method, upper, delta):
    """set of admissible candidates; comparisons closer than 1e-9 (relative) may go either way"""
    lams = list(dict.fromkeys(float(l) for l in lams))
    if method == "mse":
        s = {l: mse(kind, rows, l, upper, delta) for l in lams}
        m = min(s.values())
        big = max(abs(v) for l in lams for v in ref.rounds(kind, rows, l))
        return {l for l in lams if s[l] <= m * (1 + 1e-9) + 1e-20 * big * big}
    n = len(rows)
    th, cnf = {}, {}
    for l in lams:
        u = ref.rounds(kind, rows, l)
        th[l] = ref.mean(u)
        cnf[l] = math.sqrt(var(u) / (n - 1)) * tquant(n - 1, 1 - delta)
    C = math.sqrt(6) - 1
    scale = max([abs(v) for v in cnf.values()] + [abs(v) for v in th.values()])
    tol = 1e-9 * scale
    out, seen = set(), set()

    def go(acc, left):
        if (acc, left) in seen:
            return
        seen.add((acc, left))
        if not left:
            out.add(acc[-1])
            return
        top = max(cnf[l] for l in left)
        for l in left:
            if cnf[l] < top - tol:
                continue
            slack = min([cnf[l] + C * cnf[j] - abs(th[j] - th[l]) for j in acc], default=1.0)
            if slack >= -tol:
                go(acc + (l,), tuple(x for x in left if x != l))
            if acc and slack <= tol:
                out.add(acc[-1])

    go((), tuple(lams))
    return out


def check_one(c, kind, est, plain_cls, log, position, rows, lams, method, upper, delta, ue, tag=""):
    adm = admissible(kind, rows, lams, method, upper, delta)
    vals = {l: ref.mean(ref.rounds(kind, rows, l)) for l in adm}
    big = max(abs(v) for l in adm for v in ref.rounds(kind, rows, l))
    got = float(est.estimate_policy_value(position=position, **log))
    c.step()
    what = "%s%s lambdas=%s method=%s upper=%s delta=%s est_pscore=%s" % (tag, kind, lams, method, upper, delta, ue)
    if not any(abs(got - v) <= 1e-9 * big for v in vals.values()):
        c.fail("%s: value %r, criterion admits %r" % (what, got, vals))
    bh = getattr(est, "best_hyperparam", None)
    if bh is not None:
        c.true(any(bh == l for l in lams), "%s: chosen %r is not a candidate" % (what, bh))
        c.true(float(bh) in adm, "%s: chosen %r, criterion admits %r" % (what, bh, sorted(adm)))
    c.outcome((kind, method, tuple(sorted(adm))))
    return got, adm


def check_interval(c, kind, est, plain_cls, log, position, adm, ue, seed=7):
    d = est.estimate_interval(position=position, alpha=0.1, n_bootstrap_samples=23, random_state=seed, **log)
    exps = [plain_cls(lambda_=l, use_estimated_pscore=ue).estimate_interval(position=position, alpha=0.1, n_bootstrap_samples=23, random_state=seed, **log) for l in sorted(adm)]
    c.step(2)
    for e in exps:
        if set(d) == set(e) and all(abs(d[k] - e[k]) <= 1e-9 * max(abs(x) for x in e.values()) for k in e):
            return
    c.fail("%s: interval %r, plain estimator at the admissible %r gives %r" % (kind, d, sorted(adm), exps))


def logs_small(tier):
    slabs = [[[1.0], [0.0]], [[0.25], [0.75]], [[0.75], [0.25]]]
    qs = [[[0.5], [-1.0]]]
    if tier == "thorough":
        menu = list(itertools.product(range(2), range(3), (0.25, 1.0), (1.0, -2.0), [0]))
    else:
        menu = list(itertools.product(range(2), range(2), (0.125, 1.0), (1.0, -2.0), [0]))
        menu = [m for k, m in enumerate(menu) if k % 4 != 3]
    return slabs, qs, menu


def small(c, part, nparts, n, tier):
    slabs, qs, menu = logs_small(tier)
    cl = classes()
    k = 0
    for rows in itertools.combinations_with_replacement(menu, n):
        k += 1
        if k % nparts != part:
            continue
        log = c01.build(rows, slabs, qs, {0.125: 0.5, 0.25: 0.5, 1.0: 0.125})
        log.pop("estimated_importance_weights")
        rw = {ue: c01.rows_of(dict(log, estimated_importance_weights=np.zeros(n)), None, ue) for ue in (False, True)}
        with c.case("small", rows=rows):
            for kind, (tc, pc) in cl.items():
                ue = bool((k // nparts) % 2)
                for method, upper, delta in (("mse", True, 0.1), ("mse", False, 0.1), ("slope", True, 0.1 if n == 2 else 0.25)):
                    est = tc(lambdas=list(MENU[kind]), tuning_method=method, use_bias_upper_bound=upper, delta=delta, use_estimated_pscore=ue)
                    got, adm = check_one(c, kind, est, pc, log, None, rw[ue], MENU[kind], method, upper, delta, ue)
                    if method == "slope" or not upper:
                        check_interval(c, kind, est, pc, log, None, adm, ue)


def ladder(c, kind, n, A, L, salt, mode):
    tc, pc = classes()[kind]
    log, pos = c01.ladder_log(n, A, L, salt)
    iw = log.pop("estimated_importance_weights")
    position = pos if L > 1 else None
    rw = {ue: c01.rows_of(dict(log, estimated_importance_weights=iw), position, ue) for ue in (False, True)}
    menu = MENU[kind]
    if mode == "subsets":
        for k in range(1, 6):
            for sub in itertools.combinations(menu, k):
                for method, upper, delta in (("mse", True, 0.1), ("mse", False, 0.05), ("mse", True, 0.9), ("slope", True, 0.05), ("slope", False, 0.4)):
                    for ue in (False, True):
                        lams = list(sub)
                        with c.case("subset", kind=kind, n=n, A=A, L=L, salt=salt, lams=lams, method=method, upper=upper, delta=delta, ue=ue):
                            est = tc(lambdas=lams, tuning_method=method, use_bias_upper_bound=upper, delta=delta, use_estimated_pscore=ue)
                            fr = Frozen(log, position, lams)
                            _, adm = check_one(c, kind, est, pc, log, position, rw[ue], list(sub), method, upper, delta, ue)
                            fr.check(c, "the log or the candidate list")
                            if len(sub) in (2, 5):
                                # interval first on a fresh object, then again on the used one
                                e2 = tc(lambdas=list(sub), tuning_method=method, use_bias_upper_bound=upper, delta=delta, use_estimated_pscore=ue)
                                check_interval(c, kind, e2, pc, log, position, adm, ue)
                                check_interval(c, kind, est, pc, log, position, adm, ue, seed=3)
    elif mode == "orders":
        for sub in itertools.combinations(menu, 3):
            for method, ue in itertools.product(("mse", "slope"), (False, True)):
                with c.case("orders", kind=kind, n=n, A=A, L=L, salt=salt, lams=sub, method=method, ue=ue):
                    vals = []
                    for order in itertools.permutations(sub):
                        lams = list(order)
                        est = tc(lambdas=lams, tuning_method=method, use_estimated_pscore=ue)
                        got, _ = check_one(c, kind, est, pc, log, position, rw[ue], lams, method, True, 0.1, ue)
                        c.same(lams, list(order), "caller's candidate list after the call")
                        vals.append(got)
                    c.close(np.array(vals), np.full(len(vals), vals[0]), "values over all orders of the same candidates")
        dup = [menu[1], menu[1], menu[4], menu[1]]
        for method in ("mse", "slope"):
            with c.case("duplicates", kind=kind, lams=dup, method=method):
                est = tc(lambdas=list(dup), tuning_method=method)
                check_one(c, kind, est, pc, log, position, rw[False], dup, method, True, 0.1, False)
        # defaults: slope, upper bound, delta 0.1, true propensities
        with c.case("defaults", kind=kind):
            est = tc(lambdas=list(menu))
            check_one(c, kind, est, pc, log, position, rw[False], menu, "slope", True, 0.1, False)


WIDE = {"ipw": [0.25, 1.0, 2.0, 4.0, 8.0, 32.0], "dr": [0.25, 1.0, 2.0, 4.0, 8.0, 32.0], "switch-dr": [0.5, 1.0, 2.0, 4.0, 8.0, 32.0],
        "dr-os": [0.0, 0.1, 1.0, 5.0, 20.0, 500.0], "sg-ipw": [0.0, 0.02, 0.05, 0.2, 0.5, 0.9], "sg-dr": [0.0, 0.02, 0.05, 0.2, 0.5, 0.9]}


def sweep_log(n, salt, scale):
    """heavy-tailed weights and mostly positive rewards: the bias of a candidate is comparable with its confidence width, at a ratio that moves with n"""
    i = np.arange(n)
    h2, h3, h5 = c01.halton(n + salt, 2)[salt:], c01.halton(n + salt, 3)[salt:], c01.halton(n + salt, 5)[salt:]
    p = np.maximum(np.round(h2 * h2 * 64) / 64, 1 / 64)
    pa = np.round(h3 * 16) / 16
    a = i % 2
    ad = np.where(a[:, None] == np.arange(2)[None, :], pa[:, None], 1 - pa[:, None])[:, :, None]
    q = np.stack([np.round(h5 * 4) / 4, 1 - np.round(h3 * 2) / 2], axis=1)[:, :, None]
    return dict(reward=(1.0 + np.round(h5 * 8) / 8 - (i % 7 == 0)) * scale, action=a, pscore=p, estimated_pscore=np.maximum(np.round(h3 * 8) / 8, 1 / 8), action_dist=ad,
                estimated_rewards_by_reg_model=q * scale, estimated_importance_weights=np.ones(n))


def sweep(c, kind, part, nparts, nmax):
    """logs of every length up to nmax: the selection boundary is crossed many times; candidate sets of 4, 5 and 6; reward scales"""
    tc, pc = classes()[kind]
    menu = WIDE[kind]
    k = 0
    for n in itertools.chain(range(2, 40), range(40, nmax, 5)):
        for salt, scale in ((1, 1.0), (6, 2.0**-24), (11, 2.0**24)):
            k += 1
            if k % nparts != part:
                continue
            log = sweep_log(n, salt, scale)
            iw = log.pop("estimated_importance_weights")
            rw = c01.rows_of(dict(log, estimated_importance_weights=iw), None, False)
            for lams in (menu, menu[1:], menu[:4], menu[::-1][:4], menu[::2], menu[1:3]):
                for method, upper, delta in (("slope", True, 0.1), ("slope", True, 0.3), ("mse", False, 0.1), ("mse", True, 0.5)):
                    with c.case("sweep", kind=kind, n=n, salt=salt, scale=scale, lams=lams, method=method, upper=upper, delta=delta):
                        est = tc(lambdas=list(lams), tuning_method=method, use_bias_upper_bound=upper, delta=delta)
                        check_one(c, kind, est, pc, log, None, rw, lams, method, upper, delta, False)


def histories(c, kind, depth):
    """one instance used on several logs in every order: each answer depends on its own log only"""
    tc, pc = classes()[kind]
    ls = []
    for n, A, L, salt in ((4, 2, 1, 0), (30, 3, 1, 1), (60, 3, 2, 2)):
        log, pos = c01.ladder_log(n, A, L, salt)
        iw = log.pop("estimated_importance_weights")
        position = pos if L > 1 else None
        ls.append((log, position, {ue: c01.rows_of(dict(log, estimated_importance_weights=iw), position, ue) for ue in (False, True)}))
    for method, ue, upper in itertools.product(("mse", "slope"), (False, True), (False, True)):
        for seq in itertools.product(range(len(ls)), ("value", "interval"), repeat=depth):
            calls = list(zip(seq[::2], seq[1::2]))
            with c.case("history", kind=kind, method=method, ue=ue, upper=upper, calls=calls):
                est = tc(lambdas=list(MENU[kind]), tuning_method=method, use_estimated_pscore=ue, use_bias_upper_bound=upper)
                for i, op in calls:
                    log, position, rw = ls[i]
                    if op == "value":
                        check_one(c, kind, est, pc, log, position, rw[ue], MENU[kind], method, upper, 0.1, ue, tag="after earlier calls, ")
                    else:
                        check_interval(c, kind, est, pc, log, position, admissible_c(kind, i, rw[ue], method, upper, ue), ue)


_A = {}


def admissible_c(kind, i, rows, method, upper, ue):
    k = (kind, i, method, upper, ue)
    if k not in _A:
        _A[k] = admissible(kind, rows, MENU[kind], method, upper, 0.1)
    return _A[k]


def jobs(tier):
    th = tier == "thorough"
    out = []
    for kind in MENU:
        out.append(("histories", (kind, 3 if th else 2)))
        for k in range(3):
            out.append(("sweep", (kind, k, 3, 900 if th else 160)))
        for n, A, L, salt in [(2, 2, 1, 0), (3, 2, 1, 1), (4, 3, 2, 0), (6, 2, 1, 2), (10, 3, 1, 0), (25, 4, 2, 1), (60, 2, 1, 3), (120, 5, 3, 0), (300, 3, 1, 1)] + (
                [(1000, 4, 2, 0), (2000, 6, 1, 5)] if th else []):
            out.append(("ladder", (kind, n, A, L, salt, "subsets")))
        for n, A, L, salt in [(3, 2, 1, 0), (7, 3, 1, 1), (20, 2, 2, 4), (40, 3, 1, 2), (100, 4, 1, 0)]:
            out.append(("ladder", (kind, n, A, L, salt, "orders")))
    for k in range(16):
        out.append(("small", (k, 16, 2, tier)))
        out.append(("small", (k, 16, 3, tier)))
    return out
