"""C05: slate estimators equal their definitions on every slate log."""
import itertools

import numpy as np

from mc.core import Frozen

ID = "C05"
RULE = ("all slate logs over per-slate alphabets of propensity sequences and rewards, all row orders of two-slate logs, arbitrary slate labels; seven "
        "estimators compared with their formulas")
BOUNDS = {"quick": "<=3 slates, <=3 positions, all 24 row orders of 2x2 logs, 4 label maps; ladder up to 400 slates x 4 positions",
          "thorough": "<=4 slates, <=3 positions, all 720 row orders of 2x3 logs; ladder up to 1500 slates"}
ASSUMPTIONS = ["cascade DR requires rows sorted by slate and position (its reward-model array is laid out that way)"]


def ips_ests(L):
    from obp import ope

    return [("sips", "pscore", ope.SlateStandardIPS(len_list=L)),
            ("iips", "pscore_item_position", ope.SlateIndependentIPS(len_list=L)),
            ("rips", "pscore_cascade", ope.SlateRewardInteractionIPS(len_list=L)),
            ("snsips", "pscore", ope.SelfNormalizedSlateStandardIPS(len_list=L)),
            ("sniips", "pscore_item_position", ope.SelfNormalizedSlateIndependentIPS(len_list=L)),
            ("snrips", "pscore_cascade", ope.SelfNormalizedSlateRewardInteractionIPS(len_list=L))]


def ref_rows(kind, key, log):
    """per-row contributions"""
    w = [e / b for e, b in zip(log["evaluation_policy_" + key].tolist(), log[key].tolist())]
    r = log["reward"].tolist()
    pos = log["position"].tolist()
    if kind in ("sips", "iips", "rips"):
        return [a * b for a, b in zip(w, r)]
    if kind == "snsips":
        m = sum(w) / len(w)
        if m == 0:
            return None
        return [a * b / m for a, b in zip(w, r)]
    out = []
    for i in range(len(w)):
        at = [w[j] for j in range(len(w)) if pos[j] == pos[i]]
        m = sum(at) / len(at)
        if m == 0:
            return None
        out.append(w[i] * r[i] / m)
    return out


def ref_cascade_rows(log, L, A):
    n = len(log["reward"])
    out = []
    sc = 0.0
    for i in range(n):
        a = int(log["action"][i])
        q = log["q_hat"][i * A:(i + 1) * A].tolist()
        pe = log["evaluation_policy_action_dist"][i * A:(i + 1) * A].tolist()
        w = log["evaluation_policy_pscore_cascade"][i] / log["pscore_cascade"][i]
        wp = 1.0 if i % L == 0 else log["evaluation_policy_pscore_cascade"][i - 1] / log["pscore_cascade"][i - 1]
        dm = sum(x * y for x, y in zip(q, pe))
        out.append(w * (log["reward"][i] - q[a]) + wp * dm)
        sc = max(sc, abs(w * log["reward"][i]), abs(w * q[a]), abs(wp * dm))
    return out, sc


IPS_KEYS = ("slate_id", "position", "reward", "pscore", "pscore_item_position", "pscore_cascade", "evaluation_policy_pscore",
            "evaluation_policy_pscore_item_position", "evaluation_policy_pscore_cascade")


def compare(c, es, cdr, L, A, log, cascade=True):
    n_slates = len(set(log["slate_id"].tolist()))
    vals = []
    for kind, key, e in es:
        rows = ref_rows(kind, key, log)
        if rows is None:
            continue
        exp = sum(rows) / n_slates
        sc = max(abs(v) for v in rows)
        got = float(e.estimate_policy_value(**log))
        c.step()
        vals.append(round(exp, 7))
        if not abs(got - exp) <= 1e-11 * sc:
            c.fail("%s: got %r expected %r" % (kind, got, exp))
    if cascade:
        rows, sc = ref_cascade_rows(log, L, A)
        exp = sum(rows) / n_slates
        got = float(cdr.estimate_policy_value(**log))
        c.step()
        vals.append(round(exp, 7))
        if not abs(got - exp) <= 1e-11 * sc:
            c.fail("cascade-dr: got %r expected %r" % (got, exp))
    c.outcome(vals)


# per-slate alphabets: (behaviour cascade, evaluation cascade, item-position b, item-position e)
PB = {1: [(0.5,), (0.25,)], 2: [(0.5, 0.25), (1.0, 0.125), (0.5, 0.5)], 3: [(0.5, 0.25, 0.125), (1.0, 0.5, 0.5)]}
PE = {1: [(1.0,), (0.0,), (0.25,)], 2: [(1.0, 0.5), (0.5, 0.0), (0.0, 0.0)], 3: [(1.0, 0.5, 0.25), (0.5, 0.25, 0.0)]}
RW = {1: [(1.0,), (-2.0,)], 2: [(1.0, 0.0), (0.0, -2.0), (3.0, 1.0)], 3: [(1.0, 0.0, 2.0), (0.0, -2.0, 1.0)]}


def mk(slates, L, A, labels):
    rows = dict((k, []) for k in IPS_KEYS)
    rows.update(action=[], q_hat=[], evaluation_policy_action_dist=[])
    for s, (ib, ie, ir) in enumerate(slates):
        b, e, r = PB[L][ib], PE[L][ie], RW[L][ir]
        for l in range(L):
            rows["slate_id"].append(labels[s])
            rows["position"].append(l)
            rows["reward"].append(r[l])
            rows["pscore"].append(b[-1])
            rows["evaluation_policy_pscore"].append(e[-1])
            rows["pscore_cascade"].append(b[l])
            rows["evaluation_policy_pscore_cascade"].append(e[l])
            rows["pscore_item_position"].append((0.25, 0.5, 0.75)[(ib + l) % 3])
            rows["evaluation_policy_pscore_item_position"].append((0.5, 0.0, 1.0)[(ie + 2 * l) % 3])
            rows["action"].append((s + ib + l * 2) % A)
            for a in range(A):
                rows["q_hat"].append((a * 3 + s + l * 2 + ir) % 5 / 2.0 - 1.0)
                rows["evaluation_policy_action_dist"].append(
                    [(1.0, 0.0, 0.0), (0.25, 0.5, 0.25), (0.0, 0.25, 0.75)][(ie + l + s) % 3][a] if A == 3 else (0.25, 0.75)[(a + ie) % 2])
    return {k: np.array(v, dtype=int if k in ("slate_id", "position", "action") else float) for k, v in rows.items()}


LABELS = {"seq": (0, 1, 2, 3), "gap": (3, 10, 4, 1000), "rev": (9, 8, 7, 6)}


def explore(c, part, S, L, A, lab):
    es = ips_ests(L)
    from obp import ope

    cdr = ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A)
    menu = list(itertools.product(range(len(PB[L])), range(len(PE[L])), range(len(RW[L]))))
    if S >= 3:
        menu = [m for m in menu if m[0] < 2 and m[1] < 2 and m[2] < 2]
        if S >= 4:
            menu = [m for m in menu if m[0] == 0]
    for i0, r0 in enumerate(menu):
        if i0 % 8 != part:
            continue
        for rest in itertools.product(menu, repeat=S - 1):
            sl = (r0,) + rest
            with c.case("log", slates=sl, L=L, A=A, labels=lab):
                compare(c, es, cdr, L, A, mk(sl, L, A, LABELS[lab]))


def orders(c, part, S, L, A):
    """row order independence of the six IPS estimators"""
    es = ips_ests(L)
    menu = list(itertools.product(range(len(PB[L])), range(len(PE[L])), [2 % len(RW[L])]))[:6]
    perms = list(itertools.permutations(range(S * L)))
    for j, sl in enumerate(itertools.product(menu[:3], repeat=S)):
        if j % 8 != part:
            continue
        for lab in ("seq", "gap"):
            log = mk(sl, L, A, LABELS[lab])
            log = {k: log[k] for k in IPS_KEYS}
            short = {k: v[:-1] for k, v in log.items()}
            with c.case("ragged", slates=sl, L=L, labels=lab):
                compare(c, es, None, L, A, short, cascade=False)
                compare(c, es, None, L, A, {k: v[::-1] for k, v in short.items()}, cascade=False)
            for p in perms:
                with c.case("order", slates=sl, order=p, L=L, labels=lab):
                    compare(c, es, None, L, A, {k: v[list(p)] for k, v in log.items()}, cascade=False)


def ladder(c, S, L, A):
    es = ips_ests(L)
    from obp import ope

    cdr = ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A)
    s = np.repeat(np.arange(S), L)
    l = np.tile(np.arange(L), S)
    i = np.arange(S * L)
    bfac = ((s * 5 + l * 3) % 4 + 1) / 4.0
    efac = ((s * 3 + l * 7) % 5) / 4.0
    b = np.cumprod(bfac.reshape(S, L), axis=1)
    e = np.cumprod(efac.reshape(S, L), axis=1)
    dist = ((np.arange(S * L)[:, None] * 3 + np.arange(A)[None, :] * 5) % 7 + 0.5)
    dist /= dist.sum(1, keepdims=True)
    log = dict(slate_id=s * 3 + 2, position=l, reward=((i * 5) % 7) / 2.0 - 1, pscore=np.repeat(b[:, -1], L),
               evaluation_policy_pscore=np.repeat(e[:, -1], L), pscore_cascade=b.ravel(), evaluation_policy_pscore_cascade=e.ravel(),
               pscore_item_position=((i * 3) % 8 + 1) / 8.0, evaluation_policy_pscore_item_position=((i * 5) % 9) / 8.0,
               action=(i * 5 + s) % A, q_hat=((np.arange(S * L * A) * 7) % 11) / 4.0, evaluation_policy_action_dist=dist.ravel())
    wide = dict(log)
    for k, m in (("pscore", 23), ("pscore_item_position", 21), ("evaluation_policy_pscore_item_position", 40)):
        wide[k] = 2.0 ** -((i * 5 + l) % m)
    wide["pscore"] = np.repeat(wide["pscore"][::L], L)
    f = np.cumprod(2.0 ** -(((s * 5 + l * 3) % 9).reshape(S, L)), axis=1)
    wide["pscore_cascade"] = f.ravel()
    wide["evaluation_policy_pscore_cascade"] = np.cumprod(2.0 ** -np.maximum(((s * 3 + l * 7) % 11).reshape(S, L) - 7.0, 0), axis=1).ravel()
    tiny = dict(log)
    for k in tiny:
        if k.startswith("evaluation_policy_pscore"):
            tiny[k] = tiny[k] * 2.0**-40
    variants = {"range": wide, "tiny-eval": tiny,
                "x2^30": dict(log, reward=log["reward"] * 2.0**30, q_hat=log["q_hat"] * 2.0**30), "x2^-30": dict(log, reward=log["reward"] * 2.0**-30, q_hat=log["q_hat"] * 2.0**-30),
                "plain": log, "int-reward": dict(log, reward=(log["reward"] > 0).astype(int)),
                "strided": {k: np.repeat(v, 2)[::2] for k, v in log.items()},
                "int32-action": dict(log, action=log["action"].astype(np.int32))}
    for k, dt in (("bool", bool), ("uint8", np.uint8), ("int8", np.int8)):
        variants["reward-" + k] = dict(log, reward=(log["reward"] > 0).astype(dt) if k in ("bool", "uint8") else (log["reward"] * 2).astype(dt))
    for name, lg in variants.items():
        with c.case("ladder-" + name, S=S, L=L, A=A):
            fr = Frozen(lg)
            compare(c, es, cdr, L, A, lg)
            fr.check(c)


def jobs(tier):
    th = tier == "thorough"
    out = [("ladder", t) for t in [(400, 4, 5), (150, 2, 3), (50, 5, 6), (30, 12, 40), (1100, 2, 2), (10, 3, 4), (7, 1, 2), (1, 3, 3)] + ([(1500, 3, 10)] if th else [])]
    for k in range(8):
        out.append(("explore", (k, 2, 2, 3, "seq")))
        out.append(("explore", (k, 1, 2, 3, "gap")))
        out.append(("explore", (k, 1, 3, 3, "rev")))
        out.append(("explore", (k, 2, 1, 2, "gap")))
        out.append(("explore", (k, 2, 3, 3, "rev")))
        out.append(("explore", (k, 3, 2, 3, "seq")))
        out.append(("orders", (k, 2, 2, 3)))
        if th:
            out.append(("explore", (k, 3, 3, 3, "gap")))
            out.append(("explore", (k, 4, 2, 3, "gap")))
            out.append(("orders", (k, 2, 3, 3)))
    return out
