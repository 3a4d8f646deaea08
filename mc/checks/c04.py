"""C04: multi-logger estimators equal their definitions for every stratified log."""
import itertools

import numpy as np

from mc.core import Frozen
from mc.ref_discrete import dm_term, mean

ID = "C04"
RULE = ("all stratified logs of n rounds over (stratum, action, position, evaluation slab, propensity, reward) alphabets; all six "
        "estimators x clipping x estimated/true propensity compared with their formulas")
BOUNDS = {"quick": "n<=4 rounds, <=3 strata (arbitrary labels), 2 actions, 1-2 positions; size ladder up to 3000 rounds",
          "thorough": "n<=5 rounds, <=3 strata, 2-3 actions, 1-2 positions; ladder up to 10000 rounds"}
ASSUMPTIONS = ["weighted estimators are compared when every stratum has positive variance (the weights are undefined otherwise)"]
INF = float("inf")


def ests():
    from obp import ope

    out = []
    for lam in (INF, 1.0, 3, 2.0**15, 2.0**-12):
        for ue in (False, True):
            for kind, cls in (("naive-ipw", ope.MultiLoggersNaiveInverseProbabilityWeighting),
                              ("bal-ipw", ope.MultiLoggersBalancedInverseProbabilityWeighting),
                              ("w-ipw", ope.MultiLoggersWeightedInverseProbabilityWeighting),
                              ("naive-dr", ope.MultiLoggersNaiveDoublyRobust),
                              ("bal-dr", ope.MultiLoggersBalancedDoublyRobust),
                              ("w-dr", ope.MultiLoggersWeightedDoublyRobust)):
                out.append((kind, lam, ue, cls(lambda_=lam, use_estimated_pscore=ue)))
    return out


def ref_rounds(kind, lam, ue, log, position):
    n = len(log["action"])
    bal = kind.startswith("bal")
    ps = log[("estimated_" if ue else "") + ("pscore_avg" if bal else "pscore")]
    terms = []
    for i in range(n):
        pos = 0 if position is None else int(position[i])
        pi = log["action_dist"][i, :, pos].tolist()
        q = log["estimated_rewards_by_reg_model"][i, :, pos].tolist()
        a, r = int(log["action"][i]), float(log["reward"][i])
        w = min(pi[a] / float(ps[i]), lam)
        terms.append(w * r if kind.endswith("ipw") else dm_term(pi, q) + w * (r - q[a]))
    if not kind.startswith("w-"):
        return terms
    strata = log["stratum_idx"].tolist()
    labels = sorted(set(strata))
    var, cnt = {}, {}
    for k in labels:
        xs = [t for t, s in zip(terms, strata) if s == k]
        m = mean(xs)
        var[k] = mean([(x - m) ** 2 for x in xs])
        cnt[k] = len(xs)
        if var[k] <= 1e-9 * max(x * x for x in xs):
            return None
    tot = sum(cnt[k] / var[k] for k in labels)
    return [t * n / (var[s] * tot) for t, s in zip(terms, strata)]


def compare(c, es, log, position):
    vals = []
    for kind, lam, ue, e in es:
        exp = ref_rounds(kind, lam, ue, log, position)
        if exp is None:
            continue
        sc = max(abs(v) for v in exp)
        exp = mean(exp)
        got = float(e.estimate_policy_value(position=position, **log))
        c.step()
        vals.append(round(exp, 6))
        if not abs(got - exp) <= 1e-11 * sc:
            c.fail("%s lambda=%s est=%s: got %r expected %r" % (kind, lam, ue, got, exp))
    c.outcome(vals)


LABELS = {"0,1": (0, 1, 2), "1,2": (1, 2, 3), "5,0": (5, 0, 9)}


def mk(rows, slabs, labels):
    n = len(rows)
    q = np.array([[[0.5, -1.0], [-0.25, 2.0]], [[1.0, 0.0], [0.75, -2.0]]])[:, :, : slabs.shape[2]]
    return dict(stratum_idx=np.array([labels[r[0]] for r in rows]), action=np.array([r[1] for r in rows]),
                action_dist=np.array([slabs[r[2]] for r in rows]), reward=np.array([r[3] for r in rows], dtype=float),
                pscore=np.array([(0.25, 0.5, 1.0)[(r[0] + r[1]) % 3] for r in rows]),
                estimated_pscore=np.array([(0.5, 0.125, 0.25)[(r[0] + r[1]) % 3] for r in rows]),
                pscore_avg=np.array([(0.375, 0.75)[r[1]] for r in rows]),
                estimated_pscore_avg=np.array([(0.625, 0.25)[r[1]] for r in rows]),
                estimated_rewards_by_reg_model=np.array([q[i % 2] for i in range(n)]))


def explore(c, part, n, K, L, lab):
    es = ests()
    slabs = np.array([[[1.0, 0.25], [0.0, 0.75]], [[0.25, 0.0], [0.75, 1.0]]])[:, :, :L]
    rewards = (1.0, -2.0)
    menu = list(itertools.product(range(K), range(2), range(2), rewards))
    if n >= 4:
        menu = [m for m in menu if (m[2] == 1 or m[3] == 1.0)]
        menu = [m for m in menu if not (m[2] == 0 and m[1] == 1)]
    if n >= 5:
        menu = [m for m in menu if m[2] == 1]
    poss = [None] if L == 1 else [tuple((i + s) % 2 for i in range(n)) for s in (0, 1)]
    for i0, r0 in enumerate(menu):
        if i0 % 8 != part:
            continue
        for rest in itertools.product(menu, repeat=n - 1):
            rows = (r0,) + rest
            log = mk(rows, slabs, LABELS[lab])
            for pos in poss:
                with c.case("log", rows=rows, position=pos, labels=lab, L=L):
                    compare(c, es, log, None if pos is None else np.array(pos))


def ladder(c, n, A, L, K):
    from mc.checks.c01 import ladder_log

    es = ests()
    base, pos = ladder_log(n, A, L, K)
    i = np.arange(n)
    strata = (i * i + i // 3) % K
    log = dict(base, stratum_idx=strata, pscore_avg=((i % 5) + 1) / 8.0, estimated_pscore_avg=((i % 3) + 1) / 4.0)
    perm = np.argsort((i * 7919 + 13) % (n + 1), kind="stable")
    wide = dict(log, pscore=2.0 ** -((i * 5 + K) % 23), estimated_pscore=2.0 ** -((i * 3 + K) % 19), pscore_avg=2.0 ** -((i * 7 + K) % 21),
                estimated_pscore_avg=2.0 ** -((i * 4 + K) % 17))
    sc = {k: dict(log, reward=log["reward"] * k, estimated_rewards_by_reg_model=log["estimated_rewards_by_reg_model"] * k) for k in (2.0**30, 2.0**-30)}
    variants = {"plain": (log, pos), "range": (wide, pos), "x2^30": (sc[2.0**30], pos), "x2^-30": (sc[2.0**-30], pos), "relabelled": (dict(log, stratum_idx=(7 * strata + 3) % 101), pos), "far-labels": (dict(log, stratum_idx=65536 * strata + 256), pos),
                "int32": (dict(log, stratum_idx=strata.astype(np.int32)), pos),
                "permuted": ({k: v[perm] for k, v in log.items()}, pos[perm])}
    for k, dt in (("bool", bool), ("uint8", np.uint8), ("int8", np.int8)):
        variants["reward-" + k] = (dict(log, reward=(log["reward"] > 0).astype(dt) if k in ("bool", "uint8") else (log["reward"] * 2).astype(dt)), pos)
    variants["uint8"] = (dict(log, stratum_idx=strata.astype(np.uint8), action=log["action"].astype(np.uint8)), pos.astype(np.uint8))
    for name, (lg, p) in variants.items():
        for position in [p] + ([None] if L == 1 else []):
            with c.case("ladder-" + name, n=n, A=A, L=L, K=K, pos=position is None):
                fr = Frozen(lg, position)
                compare(c, es, lg, position)
                fr.check(c)


def jobs(tier):
    out = []
    th = tier == "thorough"
    for n, A, L, K in [(3000, 4, 2, 3), (1000, 5, 1, 2), (500, 3, 3, 5), (600, 24, 2, 12), (64, 3, 1, 3), (17, 2, 2, 2)] + ([(10000, 3, 2, 7)] if th else []):
        out.append(("ladder", (n, A, L, K)))
    for k in range(8):
        out.append(("explore", (k, 4, 2, 1, "0,1")))
        out.append(("explore", (k, 3, 2, 2, "0,1")))
        out.append(("explore", (k, 2, 2, 1, "1,2")))
        out.append(("explore", (k, 3, 3, 1, "5,0") if th else (k, 3, 2, 1, "5,0")))
        if th:
            out.append(("explore", (k, 5, 2, 1, "0,1")))
            out.append(("explore", (k, 4, 3, 1, "1,2")))
            out.append(("explore", (k, 4, 2, 2, "0,1")))
    return out
