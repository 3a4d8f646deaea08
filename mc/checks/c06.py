"""C06: kernelised continuous-action estimators equal their definitions."""
import itertools
import math

import numpy as np

from mc.core import Frozen

ID = "C06"
RULE = ("all logs of n rounds over grids of (logged action, evaluation action, reward, density, reward-model value), all kernels x bandwidths; "
        "kernels are observed through the estimator (one-round logs) on a fine grid")
BOUNDS = {"quick": "n<=2 rounds over a 4x2x3x2x2 alphabet, 4 kernels, 3 bandwidths; 400-point kernel grid; ladder up to 3000 rounds",
          "thorough": "n<=3 rounds, 5 bandwidths; 2000-point kernel grid; ladder up to 20000 rounds"}
ASSUMPTIONS = ["self-normalised estimates with an all-zero kernel sum are undefined and not compared"]
KERNELS = ("gaussian", "epanechnikov", "triangular", "cosine")


def K(name, u):
    if name == "gaussian":
        return math.exp(-u * u / 2) / math.sqrt(2 * math.pi)
    if abs(u) >= 1:
        return 0.0
    if name == "epanechnikov":
        return 0.75 * (1 - u * u)
    if name == "triangular":
        return 1 - abs(u)
    return math.pi / 4 * math.cos(math.pi * u / 2)


def ests(bws):
    from obp import ope

    out = []
    for k in KERNELS:
        for h in bws:
            out.append(("ipw", k, h, ope.KernelizedInverseProbabilityWeighting(kernel=k, bandwidth=h)))
            out.append(("snipw", k, h, ope.KernelizedSelfNormalizedInverseProbabilityWeighting(kernel=k, bandwidth=h)))
            out.append(("dr", k, h, ope.KernelizedDoublyRobust(kernel=k, bandwidth=h)))
    return out


def ref_rounds(kind, k, h, log):
    ae, ab = log["action_by_evaluation_policy"].tolist(), log["action_by_behavior_policy"].tolist()
    r, p, q = log["reward"].tolist(), log["pscore"].tolist(), log["estimated_rewards_by_reg_model"].tolist()
    n = len(r)
    kv = [K(k, (ae[i] - ab[i]) / h) / p[i] for i in range(n)]
    if kind == "ipw":
        return [kv[i] * r[i] / h for i in range(n)]
    if kind == "snipw":
        m = sum(kv) / n
        if m < 1e-250:
            return None
        return [kv[i] * r[i] / m for i in range(n)]
    return [q[i] + kv[i] * (r[i] - q[i]) / h for i in range(n)]


def compare(c, es, log):
    vals = []
    for kind, k, h, e in es:
        exp = ref_rounds(kind, k, h, log)
        if exp is None:
            continue
        sc = max(abs(v) for v in exp)
        tol = 1e-11 * sc
        if k != "gaussian":  # the kernels vanish outside their support up to one rounding of cos(pi/2)
            y = log["reward"] - (log["estimated_rewards_by_reg_model"] if kind == "dr" else 0.0)
            if kind == "snipw":
                kv = [K(k, (a - b) / h) / p for a, b, p in zip(log["action_by_evaluation_policy"].tolist(), log["action_by_behavior_policy"].tolist(), log["pscore"].tolist())]
                tol += 1e-15 * float(np.max(1 / log["pscore"])) * float(np.max(np.abs(y))) / (sum(kv) / len(kv))
            else:
                tol += 1e-15 * float(np.max(np.abs(y) / log["pscore"])) / h
        exp = sum(exp) / len(exp)
        got = float(e.estimate_policy_value(**log))
        c.step()
        vals.append(round(exp, 7))
        if not abs(got - exp) <= tol:
            c.fail("%s kernel=%s h=%s got %r expected %r" % (kind, k, h, got, exp))
    c.outcome(vals)


def mk(rows, dtype=float):
    cols = list(zip(*rows))
    return dict(action_by_behavior_policy=np.array(cols[0], dtype=float), action_by_evaluation_policy=np.array(cols[1], dtype=float),
                reward=np.array(cols[2], dtype=float), pscore=np.array(cols[3], dtype=float),
                estimated_rewards_by_reg_model=np.array(cols[4], dtype=float))


def explore(c, part, n, bws):
    es = ests(bws)
    menu = list(itertools.product((-1.5, 0.0, 0.5, 2.0), (0.0, 1.0), (0.0, 1.0, -3.0), (0.25, 2.0), (0.0, 1.5)))
    if n == 2:
        menu = [m for m in menu if m[2] != 0.0]
        if part >= 8:
            menu = [m for m in menu if m[4] == 1.5]
    if n >= 3:
        menu = [m for m in menu if m[2] == 1.0 and m[4] == 1.5]
    for i0, r0 in enumerate(menu):
        if i0 % 8 != part % 8:
            continue
        for rest in itertools.product(menu, repeat=n - 1):
            rows = (r0,) + rest
            with c.case("log", rows=rows, bws=bws):
                compare(c, es, mk(rows))


def kernel_grid(c, npts):
    """the kernel itself, observed through one-round logs; symmetry, support, unit mass by quadrature"""
    from obp import ope

    for k in KERNELS:
        for h in (0.5, 1, 2.0):
            e = ope.KernelizedInverseProbabilityWeighting(kernel=k, bandwidth=h)
            mass = 0.0
            lo, hi = (-18.0, 18.0) if k == "gaussian" else (-1.5, 1.5)
            du = (hi - lo) / npts
            with c.case("kernel", kernel=k, h=h, npts=npts):
                for j in range(npts + 1):
                    u = lo + j * du
                    got = e.estimate_policy_value(reward=np.array([1.0]), action_by_behavior_policy=np.array([0.0]),
                                                  pscore=np.array([1.0]), action_by_evaluation_policy=np.array([u * h])) * h
                    neg = e.estimate_policy_value(reward=np.array([1.0]), action_by_behavior_policy=np.array([u * h]),
                                                  pscore=np.array([1.0]), action_by_evaluation_policy=np.array([0.0])) * h
                    c.step(2)
                    c.true(got >= 0, "kernel %s negative at %r: %r" % (k, u, got))
                    c.close(got, K(k, u), "kernel %s at %r" % (k, u), atol=0.0 if k == "gaussian" else 1e-15)
                    c.close(got, neg, "symmetry of %s at %r" % (k, u), atol=0.0 if k == "gaussian" else 1e-15)
                    mass += got * du * (0.5 if j in (0, npts) else 1.0)
                c.true(abs(mass - 1) < 2e-3, "kernel %s integrates to %r" % (k, mass))


def ladder(c, n):
    es = ests((0.3, 1, 2.5, 2.0**-6, 300.0))
    i = np.arange(n)
    log = dict(action_by_behavior_policy=((i * 37) % 64) / 16.0 - 2.0, action_by_evaluation_policy=((i * 11 + 5) % 64) / 16.0 - 2.0,
               reward=((i * 5) % 9) / 2.0 - 1.5, pscore=((i % 8) + 1) / 4.0, estimated_rewards_by_reg_model=((i * 3) % 7) / 4.0)
    sc = {k: dict(log, reward=log["reward"] * k, estimated_rewards_by_reg_model=log["estimated_rewards_by_reg_model"] * k) for k in (2.0**30, 2.0**-30)}
    variants = {"plain": log, "range": dict(log, pscore=2.0 ** (((i * 5) % 31) - 22.0)), "x2^30": sc[2.0**30], "x2^-30": sc[2.0**-30],
                "shifted": dict(log, action_by_behavior_policy=log["action_by_behavior_policy"] + 2.0**20, action_by_evaluation_policy=log["action_by_evaluation_policy"] + 2.0**20),
                "strided": {k: np.repeat(v, 2)[::2] for k, v in log.items()},
                "int-reward": dict(log, reward=(log["reward"] > 0).astype(int)),
                "int-actions": dict(log, action_by_behavior_policy=(i % 4), action_by_evaluation_policy=((i // 2) % 3))}
    for k, dt in (("bool", bool), ("uint8", np.uint8), ("int8", np.int8)):
        variants["reward-" + k] = dict(log, reward=(log["reward"] > 0).astype(dt) if k in ("bool", "uint8") else (log["reward"] * 2).astype(dt))
    for name, lg in variants.items():
        with c.case("ladder-" + name, n=n):
            fr = Frozen(lg)
            compare(c, es, lg)
            fr.check(c)


def jobs(tier):
    th = tier == "thorough"
    out = [("ladder", (n,)) for n in [1, 2, 5, 50, 333, 1000, 3000] + ([20000] if th else [])]
    out.append(("kernel_grid", (2000 if th else 400,)))
    for k in range(8):
        out.append(("explore", (k, 1, (0.1, 0.5, 1, 2.0, 10.0))))
        out.append(("explore", (k, 2, (0.5, 1, 3.0)) if not th else (k, 2, (0.5, 1, 1.25, 3.0))))
        if th:
            out.append(("explore", (k, 3, (0.5, 3.0))))
    return out
