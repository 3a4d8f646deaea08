"""C01: discrete-action estimators equal their definitions on every enumerated log."""
import itertools

import numpy as np

from mc import ref_discrete as ref
from mc.core import Frozen

ID = "C01"
RULE = ("all logs of n rounds over a per-round alphabet (action x logging propensity x evaluation distribution x "
        "reward x reward-model slab x position); every estimator/hyper-parameter setting of the family is run on each "
        "log and compared with the per-round definition; a case is one (log, whole family) pair")
BOUNDS = {"quick": "n<=3 rounds, 2-3 actions, 1-2 positions, plus size ladder up to 3000 rounds x 7 actions x 3 positions",
          "thorough": "n<=4 rounds, 2-3 actions, 1-3 positions, plus size ladder up to 20000 rounds"}
ASSUMPTIONS = ["values are dyadic rationals, so threshold comparisons are exact; agreement up to 1e-9 relative",
               "weights with an undefined (0/0) normaliser are outside the definition and not compared"]
INF = float("inf")


def est_configs():
    from obp import ope

    cfg = [("rm", None, ope.ReplayMethod()), ("dm", None, ope.DirectMethod())]
    for lam in (INF, 0.0, 1, 3.0):
        for ue in (False, True):
            cfg.append(("ipw", lam, ope.InverseProbabilityWeighting(lambda_=lam, use_estimated_pscore=ue)))
            cfg.append(("dr", lam, ope.DoublyRobust(lambda_=lam, use_estimated_pscore=ue)))
            cfg.append(("switch-dr", lam, ope.SwitchDoublyRobust(lambda_=lam, use_estimated_pscore=ue)))
    for ue in (False, True):
        cfg.append(("snipw", INF, ope.SelfNormalizedInverseProbabilityWeighting(use_estimated_pscore=ue)))
        cfg.append(("sndr", INF, ope.SelfNormalizedDoublyRobust(use_estimated_pscore=ue)))
        for lam in (0.0, 2.0, INF):
            cfg.append(("dr-os", lam, ope.DoublyRobustWithShrinkage(lambda_=lam, use_estimated_pscore=ue)))
        for lam in (0.0, 0.25, 1):
            cfg.append(("sg-ipw", lam, ope.SubGaussianInverseProbabilityWeighting(lambda_=lam, use_estimated_pscore=ue)))
            cfg.append(("sg-dr", lam, ope.SubGaussianDoublyRobust(lambda_=lam, use_estimated_pscore=ue)))
    for lam in (INF, 1.5, 4):
        cfg.append(("b-ipw", lam, ope.BalancedInverseProbabilityWeighting(lambda_=lam)))
    cfg.append(("ipw-default", INF, ope.InverseProbabilityWeighting()))
    cfg.append(("dr-default", INF, ope.DoublyRobust()))
    cfg.append(("switch-dr-default", INF, ope.SwitchDoublyRobust()))
    cfg.append(("dr-os-default", 0.0, ope.DoublyRobustWithShrinkage()))
    cfg.append(("sg-ipw-default", 0.0, ope.SubGaussianInverseProbabilityWeighting()))
    cfg.append(("sg-dr-default", 0.0, ope.SubGaussianDoublyRobust()))
    cfg.append(("b-ipw-default", INF, ope.BalancedInverseProbabilityWeighting()))
    return cfg


def rows_of(log, position, use_est):
    n = log["action"].shape[0]
    out = []
    ps = log["estimated_pscore"] if use_est else log["pscore"]
    ad, q = log["action_dist"].tolist(), log["estimated_rewards_by_reg_model"].tolist()
    for i in range(n):
        pos = 0 if position is None else int(position[i])
        out.append(dict(r=float(log["reward"][i]), a=int(log["action"][i]), p=float(ps[i]),
                        pi=[row[pos] for row in ad[i]], q=[row[pos] for row in q[i]],
                        w=float(log["estimated_importance_weights"][i])))
    return out


def compare_family(c, cfgs, log, position):
    rw = {False: rows_of(log, position, False), True: rows_of(log, position, True)}
    vals = []
    for kind, lam, est in cfgs:
        k = kind.replace("-default", "")
        exp = ref.rounds(k, rw[bool(getattr(est, "use_estimated_pscore", False))], lam)
        if exp is None:
            continue
        got = est.estimate_policy_value(position=position, **log)
        c.step()
        e = ref.mean(exp)
        vals.append(round(e, 6))
        if not (abs(float(got) - e) <= 1e-11 * max(abs(v) for v in exp)):
            c.fail("%s lambda=%s use_estimated_pscore=%s: value %r, definition gives %r"
                   % (kind, lam, getattr(est, "use_estimated_pscore", None), float(got), e))
    c.outcome(tuple(vals))


def build(rows, slabs, qslabs, pe):
    return dict(
        reward=np.array([r[3] for r in rows], dtype=float),
        action=np.array([r[0] for r in rows], dtype=int),
        pscore=np.array([r[2] for r in rows], dtype=float),
        estimated_pscore=np.array([pe[r[2]] for r in rows], dtype=float),
        action_dist=np.array([slabs[r[1]] for r in rows], dtype=float),
        estimated_rewards_by_reg_model=np.array([qslabs[r[4]] for r in rows], dtype=float),
        estimated_importance_weights=np.array([[0.0, 0.5, 2.0, 1.5][(r[0] + r[1] * 2 + (r[3] > 0)) % 4] for r in rows]),
    )


def explore(c, first, n, A, L, full):
    """all logs whose first row has index `first` mod 8"""
    cfgs = est_configs()
    if L == 1:
        slabs = [[[1.0]] + [[0.0]] * (A - 1), [[0.0]] * (A - 1) + [[1.0]],
                 [[v] for v in ([0.25, 0.75] if A == 2 else [0.25, 0.0, 0.75])]]
        qs = [[[0.0]] * A, [[0.5 - 1.5 * a] for a in range(A)]]
    else:
        slabs = [[[1.0, 0.0, 0.25][:L]] + [[0.0, 0.5, 0.5][:L]] * 1 + [[0.0, 0.5, 0.25][:L]],
                 [[0.25, 0.0, 0.0][:L], [0.75, 0.0, 0.5][:L], [0.0, 1.0, 0.5][:L]],
                 [[0.5, 0.25, 1.0][:L], [0.25, 0.25, 0.0][:L], [0.25, 0.5, 0.0][:L]]]
        qs = [[[0.5, -1.0, 3.0][:L], [1.5, 0.25, -2.0][:L], [-0.75, 2.0, 1.0][:L]]]
    if full:
        menu = list(itertools.product(range(A), range(3), (0.25, 1.0), (0.0, 1.0, -2.0), range(len(qs))))
    else:
        menu = list(itertools.product(range(A), range(3), (0.25, 1.0), (1.0, -2.0), [len(qs) - 1]))
    pe = {0.25: 0.5, 1.0: 0.125}
    poss = [None] if L == 1 else list(itertools.product(range(L), repeat=n))
    if L > 1:
        menu = [m for m in menu if m[3] != 0.0]
        if n >= 2:
            menu = [m for m in menu if not (m[2] == 1.0 and m[3] == -2.0)]
        if n >= 3:
            menu = [m for m in menu if m[2] == 0.25 and m[3] == 1.0]
    for i0, r0 in enumerate(menu):
        if i0 % 8 != first:
            continue
        for rest in itertools.product(menu, repeat=n - 1):
            rows = (r0,) + rest
            log = build(rows, slabs, qs, pe)
            for pos in poss:
                position = None if pos is None else np.array(pos, dtype=int)
                with c.case("log", rows=rows, position=pos, L=L, A=A):
                    compare_family(c, cfgs, log, position)


def halton(n, base):
    out = np.zeros(n)
    for i in range(n):
        f, r, k = 1.0, 0.0, i + 1
        while k > 0:
            f /= base
            r += f * (k % base)
            k //= base
        out[i] = r
    return out


def ladder_log(n, A, L, salt=0):
    """a fixed (not random) instance of the given size with dyadic entries"""
    i = np.arange(n)
    logits = ((i[:, None, None] * 7 + np.arange(A)[None, :, None] * 5 + np.arange(L)[None, None, :] * 3 + salt) % 8).astype(float)
    logits[logits == 0] = 0.0
    logits += 1e-300
    ad = logits / logits.sum(axis=1, keepdims=True)
    det = (i % 5 == 0)
    for l in range(L):
        rows = np.where(det)[0]
        ad[rows, :, l] = 0.0
        ad[rows, (rows + l + salt) % A, l] = 1.0
    q = ((i[:, None, None] * 3 + np.arange(A)[None, :, None] * 11 + np.arange(L)[None, None, :] * 2) % 9) / 4.0 - 1.0
    return dict(reward=((i * 5 + salt) % 7) / 2.0 - 1.0, action=(i * 3 + i // 4 + salt) % A,
                pscore=((i % 8) + 1) / 8.0, estimated_pscore=(((i + 3) % 4) + 1) / 4.0, action_dist=ad,
                estimated_rewards_by_reg_model=q, estimated_importance_weights=((i + salt) % 6) / 2.0), (i * 2 + salt) % L


def ladder(c, n, A, L, salt):
    cfgs = est_configs()
    log, pos = ladder_log(n, A, L, salt)
    variants = {"plain": (log, pos)}
    for k, s in (("x2^30", 2.0**30), ("x2^-30", 2.0**-30)):
        v = dict(log)
        for key in ("reward", "estimated_rewards_by_reg_model"):
            v[key] = log[key] * s
        variants["reward" + k] = (v, pos)
    v = dict(log)  # wide dynamic range of the propensities
    v["pscore"] = 2.0 ** -((np.arange(n) * 5 + salt) % 23)
    v["estimated_pscore"] = 2.0 ** -((np.arange(n) * 3 + salt) % 19)
    v["estimated_importance_weights"] = 2.0 ** (((np.arange(n) * 3 + salt) % 25) - 8.0)
    variants["range"] = (v, pos)
    for k, sh in (("tiny", 2.0**-24), ("mixed", None)):  # logged actions (nearly) never taken by the evaluation policy
        v = dict(log)
        ad = np.zeros_like(log["action_dist"])
        r = np.arange(n)
        for l in range(L):
            e = sh if sh else 2.0 ** -((r * 3 + salt) % 30 + 10.0)
            ad[r, log["action"], l] = e
            ad[r, (log["action"] + 1) % A, l] = 1.0 - e
        v["action_dist"] = ad
        v["estimated_importance_weights"] = log["estimated_importance_weights"] * 2.0**-24
        variants["weights-" + k] = (v, pos)
    v = {k: (np.asfortranarray(x) if x.ndim > 1 else x) for k, x in log.items()}
    variants["fortran"] = (v, pos)
    v = {k: np.repeat(x, 2, axis=0)[::2] for k, x in log.items()}
    variants["strided"] = (v, np.repeat(pos, 2)[::2])
    v = dict(log)
    v["action"] = log["action"].astype(np.int32)
    v["reward"] = (log["reward"] > 0).astype(int)
    variants["int"] = (v, pos.astype(np.int32))
    v = dict(log)
    v["action"] = log["action"].astype(np.uint8)
    variants["uint8-pos0"] = (v, np.zeros(n, dtype=np.int64))
    for k, dt in (("bool", bool), ("uint8", np.uint8), ("int8", np.int8)):
        v = dict(log)
        v["reward"] = (log["reward"] > 0).astype(dt) if k in ("bool", "uint8") else (log["reward"] * 2).astype(dt)
        variants["reward-" + k] = (v, pos.astype(np.uint8))
    for name, (lg, p) in variants.items():
        p_ = [p] + ([None] if L == 1 else [])
        for position in p_:
            with c.case("ladder-" + name, n=n, A=A, L=L, salt=salt, position=position is not None):
                fr = Frozen(lg, position)
                compare_family(c, cfgs, lg, position)
                fr.check(c)


def single_row_weights(c):
    """n=1..2 rounds, fine grid over the weight around the hyper-parameter"""
    from obp import ope

    ws = [0.0, 2.0**-20, 0.25, 0.5, 0.75, 1.0, 1.25, 2.0, 3.0, 4.0, 8.0, 64.0, 1024.0, 2.0**22, 2.0**40]
    lams = [0, 0.0, 0.25, 1.0, 2, 3.0, 64.0, 100, 2.0**22, INF]
    for lam in lams:
        ests = [("ipw", ope.InverseProbabilityWeighting(lambda_=lam)), ("dr", ope.DoublyRobust(lambda_=lam)),
                ("switch-dr", ope.SwitchDoublyRobust(lambda_=lam)), ("dr-os", ope.DoublyRobustWithShrinkage(lambda_=lam))]
        if lam <= 1:
            ests += [("sg-ipw", ope.SubGaussianInverseProbabilityWeighting(lambda_=lam)),
                     ("sg-dr", ope.SubGaussianDoublyRobust(lambda_=lam))]
        for w1, w2, r in itertools.product(ws, ws, (-3.0, 0.0, 1e6)):
            # pi_e(a)/pscore == w exactly, with both probabilities in [0, 1]
            pa = [0.5 * min(w1, 1.0), 0.5 * min(w2, 1.0)]
            pi = [[pa[0], 1 - pa[0]], [pa[1], 1 - pa[1]]]
            log = dict(reward=np.array([r, 1.0]), action=np.array([0, 0]),
                       pscore=np.array([0.5 / max(w1, 1.0), 0.5 / max(w2, 1.0)]),
                       action_dist=np.array(pi)[:, :, None],
                       estimated_rewards_by_reg_model=np.array([[[0.5], [2.0]], [[-1.0], [0.0]]]))
            with c.case("weights", lam=lam, w1=w1, w2=w2, r=r):
                rows = [dict(r=float(log["reward"][i]), a=0, p=float(log["pscore"][i]), pi=pi[i],
                             q=log["estimated_rewards_by_reg_model"][i, :, 0].tolist(), w=0.0) for i in range(2)]
                for kind, est in ests:
                    exp = ref.rounds(kind, rows, lam)
                    if exp is None:
                        continue
                    c.step()
                    c.close(est.estimate_policy_value(**log), ref.mean(exp), kind)


def jobs(tier):
    out = []
    th = tier == "thorough"
    out.append(("single_row_weights", ()))
    sizes = [(1, 2, 1), (2, 2, 2), (3, 3, 1), (7, 4, 3), (31, 5, 2), (64, 3, 1), (101, 2, 3), (257, 6, 2), (1000, 7, 1),
             (1025, 4, 3), (3000, 3, 1), (40, 64, 1), (33, 20, 12), (5, 300, 2)]
    if th:
        sizes += [(10001, 5, 2), (20000, 8, 1)]
    for n, A, L in sizes[::-1]:
        for salt in ((0, 1) if n < 1000 else (0,)):
            out.append(("ladder", (n, A, L, salt)))
    for k in range(8):
        out.append(("explore", (k, 1, 2, 1, True)))
        out.append(("explore", (k, 1, 3, 2, True)))
        out.append(("explore", (k, 1, 3, 3, True)))
        out.append(("explore", (k, 2, 2, 1, True)))
        out.append(("explore", (k, 2, 3, 2, False)))
        out.append(("explore", (k, 3, 3, 1, False) if th else (k, 3, 2, 1, False)))
        if th:
            out.append(("explore", (k, 2, 3, 1, True)))
            out.append(("explore", (k, 2, 3, 3, False)))
            out.append(("explore", (k, 3, 3, 2, False)))
    return out
