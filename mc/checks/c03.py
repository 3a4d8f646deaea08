"""C03: bootstrap intervals, by enumerating every resampling outcome through a scripted random source."""
import itertools

import numpy as np

from mc import ref_discrete as ref
from mc.rng import ScriptedRNG

ID = "C03"
RULE = ("(a) every index sequence the resampler can draw for n units and B resamples is scripted and the multiset of resulting intervals is compared with "
        "the model; (b) for every log of a menu, resamples that repeat one unit expose each per-unit estimate through the interval, for every estimator of every family; "
        "(c) seeds: repeatability, independence from the global random state, nesting in alpha")
BOUNDS = {"quick": "n<=3 units, B<=2 exhaustive index sequences; logs of 2 rounds over a 24-row alphabet; alphas {0,.05,.07,.3,.5,1}",
          "thorough": "n<=4, B<=2 and n=2, B<=4; same log menus with 3 rounds"}
ASSUMPTIONS = ["the resampler draws unit indices from the supplied RandomState with choice or randint (any call shape)"]
INF = float("inf")


def pct(xs, q):
    xs = sorted(xs)
    h = (len(xs) - 1) * q
    lo = int(h)
    hi = min(lo + 1, len(xs) - 1)
    return xs[lo] + (xs[hi] - xs[lo]) * (h - lo)


def ref_interval(units, idx, B, alpha):
    n = len(units)
    means = [sum(units[j] for j in idx[b * n:(b + 1) * n]) / n for b in range(B)]
    return sum(means) / B, pct(means, alpha / 2), pct(means, 1 - alpha / 2)


def parse(c, d, alpha):
    c.true(isinstance(d, dict) and len(d) == 3 and "mean" in d, "keys %r" % (list(d),))
    out = {}
    for k, v in d.items():
        if k == "mean":
            continue
        for side in ("lower", "upper"):
            suf = "% CI (" + side + ")"
            if k.endswith(suf):
                c.close(float(k[: -len(suf)]), 100 * (1 - alpha), "confidence level in key %r" % k, rtol=1e-9)
                out[side] = float(v)
    c.true(set(out) == {"lower", "upper"}, "keys %r" % (list(d),))
    return float(d["mean"]), out["lower"], out["upper"]


# ---- family members: (name, call(rng, B, alpha), per-unit reference) -------
def discrete_members(rows, L, position):
    from mc.checks import c01

    A = 2
    slabs = [[[1.0, 0.25][:L], [0.0, 0.75][:L]], [[0.0, 0.5][:L], [1.0, 0.5][:L]], [[0.25, 0.0][:L], [0.75, 1.0][:L]]]
    qs = [[[0.5, 1.5][:L], [-1.0, 0.25][:L]]]
    log = c01.build(rows, slabs, qs, {0.25: 0.5, 1.0: 0.125})
    out = []
    rw = {u: c01.rows_of(log, position, u) for u in (False, True)}
    for kind, lam, est in _cfgs("c01"):
        units = ref.rounds(kind.replace("-default", ""), rw[bool(getattr(est, "use_estimated_pscore", False))], lam)
        if units is not None:
            out.append((kind, est, dict(log, position=position), units))
    for kind, est, lam in tuning_members():
        units = ref.rounds(kind, rw[est.use_estimated_pscore], lam)
        if units is not None:
            out.append((kind + "-tuning", est, dict(log, position=position), units))
    return out


def tuning_members():
    from obp import ope

    out = []
    for ue in (False, True):
        for tm in ("mse", "slope"):
            for kind, cls, lam in (("ipw", ope.InverseProbabilityWeightingTuning, 1.0), ("dr", ope.DoublyRobustTuning, 3.0),
                                   ("switch-dr", ope.SwitchDoublyRobustTuning, 3.0), ("dr-os", ope.DoublyRobustWithShrinkageTuning, 2.0),
                                   ("sg-ipw", ope.SubGaussianInverseProbabilityWeightingTuning, 0.25), ("sg-dr", ope.SubGaussianDoublyRobustTuning, 0.5)):
                # a single candidate: the tuned estimator must be the plain one
                out.append((kind, cls(lambdas=[lam], tuning_method=tm, use_estimated_pscore=ue), lam))
    return out


_C = {}


def _cfgs(name):
    if name not in _C:
        if name == "c01":
            from mc.checks import c01
            _C[name] = c01.est_configs()
        else:
            from mc.checks import c04
            _C[name] = c04.ests()
    return _C[name]


def multi_members(rows, L, position, lab):
    from mc.checks import c04

    slabs = np.array([[[1.0, 0.25], [0.0, 0.75]], [[0.25, 0.0], [0.75, 1.0]]])[:, :, :L]
    log = c04.mk(rows, slabs, c04.LABELS[lab])
    out = []
    for kind, lam, ue, e in _cfgs("c04"):
        units = c04.ref_rounds(kind, lam, ue, log, position)
        if units is not None:
            out.append((kind, e, dict(log, position=position), units))
    return out


def slate_members(slates, L, A, lab, order=None):
    from obp import ope
    from mc.checks import c05

    log = c05.mk(slates, L, A, c05.LABELS[lab])
    out = []
    for kind, key, e in c05.ips_ests(L):
        lg = {k: (v if order is None else v[list(order)]) for k, v in log.items() if k in c05.IPS_KEYS}
        rows = c05.ref_rows(kind, key, lg)
        if rows is None:
            continue
        ids = lg["slate_id"].tolist()
        units = [sum(r for r, s in zip(rows, ids) if s == i) for i in sorted(set(ids))]
        out.append((kind, e, lg, units))
    if order is None:
        rows = c05.ref_cascade_rows(log, L, A)[0]
        ids = log["slate_id"].tolist()
        units = [sum(r for r, s in zip(rows, ids) if s == i) for i in sorted(set(ids))]
        out.append(("cascade-dr", ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A), log, units))
    return out


def cont_members(rows):
    from mc.checks import c06

    log = c06.mk(rows)
    out = []
    for kind, k, h, e in c06.ests((0.5, 3)):
        units = c06.ref_rounds(kind, k, h, log)
        if units is not None:
            out.append((kind + "-" + k, e, log, units))
    return out


def embed_members(rows):
    """rows: (action, embedding, reward, which policy row)"""
    from obp import ope

    P = np.array([[[0.25], [0.75]], [[1.0], [0.0]]])
    pb = np.array([[0.25, 0.75], [0.5, 0.5]])
    pe = np.array([[1.0, 0.0], [0.25, 0.75]])
    x = np.array([r[3] for r in rows])
    e = np.array([r[1] for r in rows])
    log = dict(reward=np.array([r[2] for r in rows], dtype=float), action=np.array([r[0] for r in rows]), action_embed=e[:, None],
               pi_b=pb[x][:, :, None], action_dist=pe[x][:, :, None], p_e_a=P, context=np.zeros((len(rows), 1)))
    w = []
    for i in range(len(rows)):
        num = sum(pe[x[i], a] * P[a, e[i], 0] for a in range(2))
        den = sum(pb[x[i], a] * P[a, e[i], 0] for a in range(2))
        w.append(num / den)
    u1 = [a * r for a, r in zip(w, log["reward"].tolist())]
    out = [("mipw", ope.MarginalizedInverseProbabilityWeighting(n_actions=2), log, u1)]
    m = sum(w) / len(w)
    if m > 0:
        out.append(("snmipw", ope.SelfNormalizedMarginalizedInverseProbabilityWeighting(n_actions=2), log, [a / m for a in u1]))
    return out


# ---- (a) all index sequences -------------------------------------------------
def samples_for(n):
    if n == 1:
        d = [(0, 1, 0.25, 1.0, 0)]
    elif n == 2:
        d = [(0, 0, 0.25, 1.0, 0), (1, 2, 1.0, -2.0, 0)]
    elif n == 3:
        d = [(0, 0, 0.25, 1.0, 0), (1, 2, 1.0, -2.0, 0), (0, 2, 0.25, 3.0, 0)]
    else:
        d = [(0, 0, 0.25, 1.0, 0), (1, 2, 1.0, -2.0, 0), (0, 2, 0.25, 3.0, 0), (1, 1, 0.25, 0.0, 0)]
    return d


def members_for(fam, n):
    if fam == "discrete":
        return discrete_members(samples_for(n), 1, None)
    if fam == "positions":
        return discrete_members(samples_for(n), 2, np.array([i % 2 for i in range(n)]))
    if fam == "multi":
        rows = [(0, 0, 0, 1.0), (1, 1, 1, -2.0), (0, 0, 1, 1.0), (1, 0, 1, 1.0)][:n]
        return multi_members(rows, 1, None, "1,2")
    if fam == "slate":
        return slate_members([(0, 0, 0), (1, 1, 2), (2, 0, 1)][:n], 2, 3, "gap")
    if fam == "continuous":
        return cont_members([(0.0, 1.0, 1.0, 0.25, 1.5), (0.5, 0.0, -3.0, 2.0, 0.0), (2.0, 1.0, 2.0, 0.5, 1.0)][:n])
    return embed_members([(0, 0, 1.0, 0), (1, 0, -2.0, 1), (0, 1, 3.0, 1)][:n])


def sequences(c, fam, n, B, alphas, part=0, nparts=1):
    for name, est, log, units in members_for(fam, n)[part::nparts]:
        for alpha in alphas:
            with c.case("sequences", family=fam, estimator=name, hyper=repr(est)[:160], n=n, B=B, alpha=alpha):
                got, exp = [], []
                for idx in itertools.product(range(n), repeat=n * B):
                    rng = ScriptedRNG(indices=idx)
                    d = est.estimate_interval(alpha=alpha, n_bootstrap_samples=B, random_state=rng, **log)
                    c.step()
                    m, lo, hi = parse(c, d, alpha)
                    c.true(lo <= hi + 1e-12, "lower %r above upper %r" % (lo, hi))
                    c.true(min(units) - 1e-9 <= lo and hi <= max(units) + 1e-9, "interval [%r,%r] outside the range of per-unit estimates %r" % (lo, hi, units))
                    c.true(len(rng.log) == n * B, "%d draws for B=%d resamples of n=%d units" % (len(rng.log), B, n))
                    got.append((m, lo, hi))
                    exp.append(ref_interval(units, idx, B, alpha))
                    c.state((fam, name, n, B, alpha, idx))
                    c.outcome((round(m, 6), round(lo, 6), round(hi, 6)))
                key = lambda t: tuple(round(v, 7) + 0.0 for v in t)
                g, e = sorted(map(key, got)), sorted(map(key, exp))
                c.close(np.array(g), np.array(e), "multiset of (mean, lower, upper) over all resamplings", rtol=1e-6, atol=1e-6)


# ---- (b) per-unit estimates through the interval path --------------------------
def expose(c, name, est, log, units, alpha):
    n = len(units)
    idx = [i for i in range(n) for _ in range(n)]
    d = est.estimate_interval(alpha=alpha, n_bootstrap_samples=n, random_state=ScriptedRNG(indices=idx), **log)
    c.step()
    m, lo, hi = parse(c, d, alpha)
    em, elo, ehi = ref_interval(units, idx, n, alpha)
    for what, g, e in (("mean", m, em), ("lower", lo, elo), ("upper", hi, ehi)):
        if not abs(g - e) <= 1e-8 * max(1.0, abs(e)):
            c.fail("%s alpha=%s %s: got %r expected %r" % (name, alpha, what, g, e))
    c.outcome((name, round(em, 6), round(elo, 6)))


def logs(c, fam, part, nparts, n):
    if fam == "discrete":
        menu = list(itertools.product(range(2), range(3), (0.25, 1.0), (1.0, -2.0), [0]))
        if n == 3:
            menu = [m for m in menu if m[2] == 0.25 and m[3] == 1.0] + [menu[1]]
        gen = ((rows, None, 1) for rows in itertools.product(menu, repeat=n))
        mk = lambda t: discrete_members(t[0], t[2], t[1])
    elif fam == "positions":
        menu = list(itertools.product(range(2), range(3), (0.25,), (1.0, -2.0), [0]))
        gen = ((rows, np.array(p), 2) for rows in itertools.product(menu, repeat=2) for p in itertools.product(range(2), repeat=2))
        mk = lambda t: discrete_members(t[0], t[2], t[1])
    elif fam == "multi":
        menu = list(itertools.product(range(2), range(2), range(2), (1.0, -2.0)))
        if n >= 4:
            menu = [m for m in menu if m[2] == 1]
        gen = ((rows, p, L) for rows in itertools.product(menu, repeat=n)
               for L, p in (((1, None), (2, np.array([1, 0, 1, 0][:n]))) if n < 4 else ((1, None),)))
        mk = lambda t: multi_members(t[0], t[2], t[1], "0,1")
    elif fam == "slate":
        menu = list(itertools.product(range(3), range(3), range(3)))
        menu = [m for m in menu if m[2] > 0][:12]
        gen = ((sl, lab, None if lab == "rev" else (3, 1, 0, 2)) for sl in itertools.product(menu, repeat=2) for lab in ("rev", "gap"))
        mk = lambda t: slate_members(t[0], 2, 3, t[1], t[2])
    elif fam == "continuous":
        menu = list(itertools.product((-1.5, 0.0, 0.5), (0.0, 1.0), (1.0, -3.0), (0.25, 2.0), (1.5,)))
        gen = ((rows,) for rows in itertools.product(menu, repeat=2))
        mk = lambda t: cont_members(t[0])
    else:
        menu = [r for r in itertools.product(range(2), range(2), (1.0, -2.0), range(2)) if not (r[0] == 1 and r[1] == 1)]
        gen = ((rows,) for rows in itertools.product(menu, repeat=2))
        mk = lambda t: embed_members(t[0])
    alphas = (0.0, 0.3, 0.05, 1.0)
    for k, t in enumerate(gen):
        if k % nparts != part:
            continue
        with c.case("log-" + fam, inputs=t, n=n):
            for j, (name, est, log, units) in enumerate(mk(t)):
                expose(c, name, est, log, units, alphas[(k // nparts + j) % 4])


# ---- (c) seeds -------------------------------------------------------------------
def seeds(c, fam, base):
    for name, est, log, units in members_for(fam, 3 if fam != "multi" else 4):
        with c.case("seeds", family=fam, estimator=name, hyper=repr(est)[:160], base=base):
            prev = None
            distinct = set()
            for s in (base, base + 1, base + 2):
                for alpha in (0.5, 0.3, 0.07, 0.05):
                    np.random.seed(1)
                    d1 = est.estimate_interval(alpha=alpha, n_bootstrap_samples=60, random_state=s, **log)
                    g1 = np.random.get_state()[1].sum(), np.random.get_state()[2]
                    np.random.seed(999)
                    d2 = est.estimate_interval(alpha=alpha, n_bootstrap_samples=60, random_state=s, **log)
                    d3 = est.estimate_interval(alpha=alpha, n_bootstrap_samples=60, random_state=np.random.RandomState(s), **log)
                    c.step(3)
                    np.random.seed(1)
                    g0 = np.random.get_state()[1].sum(), np.random.get_state()[2]
                    c.true(g0 == g1, "the global random state was consumed")
                    c.true(d1 == d2, "same seed, different interval: %r vs %r" % (d1, d2))
                    c.true(d1 == d3, "integer seed and RandomState(seed) differ")
                    m, lo, hi = parse(c, d1, alpha)
                    c.true(lo - 1e-12 <= hi and min(units) - 1e-9 <= lo and hi <= max(units) + 1e-9, "interval out of range")
                    if alpha == 0.5:
                        prev = (lo, hi)
                    else:
                        c.true(lo <= prev[0] + 1e-12 and hi >= prev[1] - 1e-12, "interval not nested when alpha decreases")
                        prev = (lo, hi)
                    distinct.add((m, lo, hi))
            if max(units) - min(units) > 1e-6:
                c.true(len(distinct) > 1, "interval does not vary with the seed")


def helper(c):
    """the shared bootstrap function on raw samples, all sequences; n_bootstrap default and large B"""
    from obp.utils import estimate_confidence_interval_by_bootstrap as f

    for smp in ([1.0], [0.0, 1.0], [2.0, -1.0, 0.5], [3, 1]):
        n = len(smp)
        for B in (1, 2) if n == 3 else (1, 2, 3):
            for alpha in (0.0, 0.05, 0.5, 1.0):
                for idx in itertools.product(range(n), repeat=n * B):
                    with c.case("helper", samples=smp, idx=idx, B=B, alpha=alpha):
                        d = f(samples=np.array(smp), alpha=alpha, n_bootstrap_samples=B, random_state=ScriptedRNG(indices=idx))
                        c.step()
                        c.close(np.array(parse(c, d, alpha)), np.array(ref_interval(smp, idx, B, alpha)), "interval")
    for B in (1, 2, 99, 1000, 1001):
        smp = np.array([((i * 7) % 11) / 2.0 for i in range(40)])
        idx = [(b * 3 + (i * (b % 7 + 1)) // 2) % 40 for b in range(B) for i in range(40)]
        for alpha in (0.01, 0.05, 0.1, 0.3):
            with c.case("helper-large", B=B, alpha=alpha):
                rng = ScriptedRNG(indices=idx)
                d = f(samples=smp, alpha=alpha, n_bootstrap_samples=B, random_state=rng)
                c.step()
                c.close(np.array(parse(c, d, alpha)), np.array(ref_interval(smp.tolist(), idx, B, alpha)), "interval")
                c.true(len(rng.log) == 40 * B, "wrong number of draws")


    for n, sc in ((41, 2.0**-40), (257, 2.0**30), (999, 1.0), (1001, 1.0), (2050, 2.0**-20), (10007, 1.0)):
        smp = np.array([(((i * 7) % 11) / 2.0 - 1) * sc for i in range(n)])
        B = 4
        idx = [(b * 31 + (i * (b * 5 + 3)) // 2) % n for b in range(B) for i in range(n)]
        for alpha in (0.05, 0.5):
            with c.case("helper-size", n=n, B=B, alpha=alpha):
                rng = ScriptedRNG(indices=idx)
                d = f(samples=smp, alpha=alpha, n_bootstrap_samples=B, random_state=rng)
                c.step()
                c.close(np.array(parse(c, d, alpha)), np.array(ref_interval(smp.tolist(), idx, B, alpha)), "interval", atol=1e-12 * sc)
                c.true(len(rng.log) == n * B, "wrong number of draws")


def sizes(c, fam):
    """whole estimators on logs of more than a thousand units"""
    from mc.checks import c01, c05

    B = 3
    if fam == "discrete":
        log, pos = c01.ladder_log(1301, 3, 2, 1)
        log["position"] = pos
        rw = {u: c01.rows_of(log, pos, u) for u in (False, True)}
        mem = [(kind, est, log, ref.rounds(kind.replace("-default", ""), rw[bool(getattr(est, "use_estimated_pscore", False))], lam)) for kind, lam, est in _cfgs("c01")]
    else:
        from mc.checks.c09 import slate_log
        L, A, S = 2, 3, 1103
        log = slate_log(S, L, A, 1)
        mem = []
        for kind, key, est in c05.ips_ests(L):
            rows = c05.ref_rows(kind, key, log)
            if rows is not None:
                mem.append((kind, est, {k: log[k] for k in ("slate_id", "reward", "position", key, "evaluation_policy_" + key)}, [sum(rows[s * L:(s + 1) * L]) for s in range(S)]))
    for kind, est, lg, units in mem:
        if units is None:
            continue
        n = len(units)
        idx = [(b * 31 + (i * (b * 5 + 3)) // 2) % n for b in range(B) for i in range(n)]
        for alpha in (0.05, 0.5):
            with c.case("sizes", family=fam, estimator=kind, hyper=repr(est)[:120], n=n, alpha=alpha):
                rng = ScriptedRNG(indices=idx)
                d = est.estimate_interval(alpha=alpha, n_bootstrap_samples=B, random_state=rng, **lg)
                c.step()
                c.close(np.array(parse(c, d, alpha)), np.array(ref_interval(units, idx, B, alpha)), "interval", atol=1e-10 * max(abs(u) for u in units))


def jobs(tier):
    th = tier == "thorough"
    fams = ("discrete", "positions", "multi", "slate", "continuous", "embed")
    out = [("helper", ()), ("sizes", ("discrete",)), ("sizes", ("slate",))]
    for fam in fams:
        for n, B, al in ((2, 1, (0.05, 0.5, 1.0)), (2, 2, (0.0, 0.3)), (3, 1, (0.07,))):
            if fam == "multi" and n == 3:
                n = 4
            out.append(("sequences", (fam, n, B, al)))
        if fam == "slate" or th:
            for k in range(12):
                out.append(("sequences", (fam, 3, 2, (0.3,), k, 12) if fam != "multi" else (fam, 2, 3, (0.3,), k, 12)))
        elif fam in ("discrete", "embed"):
            for k in range(12 if fam == "discrete" else 1):
                out.append(("sequences", (fam, 3, 2, (0.3,), k, 12 if fam == "discrete" else 1)))
        out.append(("seeds", (fam, 0)))
        out.append(("seeds", (fam, 12345)))
    P = 16
    for k in range(P):
        out.append(("logs", ("discrete", k, P, 2)))
        out.append(("logs", ("multi", k, P, 2)))
        out.append(("logs", ("multi", k, P, 4)))
        out.append(("logs", ("positions", k, P, 2)))
        out.append(("logs", ("slate", k, P, 2)))
        out.append(("logs", ("continuous", k, P, 2)))
        if th:
            out.append(("logs", ("discrete", k, P, 3)))
            out.append(("logs", ("multi", k, P, 3)))
    out.append(("logs", ("embed", 0, 1, 2)))
    return out
