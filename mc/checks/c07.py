"""C07: marginalised IPW and embedding selection."""
import itertools
import math

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin

from mc.checks.c08 import tquant, var
from mc.core import Frozen
from mc.ref_discrete import mean

ID = "C07"
RULE = ("all logs up to a length bound over (context, action, embedding, reward, position) for small embedding spaces; weights from the given embedding distribution or from a tabular posterior classifier "
        "(grouping equal feature rows, so independent of feature encoding); embedding selection is compared with the interval-intersection rule, ties within 1e-9 admitting both")
BOUNDS = {"quick": "logs of 1-3 rounds, 3 actions, 1-2 embedding dimensions of 2-3 categories, 1-2 positions; selection on logs of 2-60 rounds with 2-4 dimensions, all min dims, both methods",
          "thorough": "logs of 1-3 rounds over larger alphabets; selection with up to 5 dimensions and 400 rounds"}
ASSUMPTIONS = ["every observed embedding has positive probability under the logging policy", "selection needs at least two rounds and min_emb_dim <= number of dimensions"]


class Tab(BaseEstimator, ClassifierMixin):
    """posterior over actions = smoothed frequencies among training rows with identical features"""

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.t = {}
        for row, a in zip(np.asarray(X, dtype=float), y):
            d = self.t.setdefault(row.tobytes(), np.full(len(self.classes_), 0.5))
            d[np.searchsorted(self.classes_, a)] += 1
        return self

    def predict_proba(self, X):
        return np.array([self.t[r.tobytes()] / self.t[r.tobytes()].sum() for r in np.asarray(X, dtype=float)])

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]


def weights(log, A, dims, pos, posterior):
    n = len(log["action"])
    E = log["action_embed"]
    out = []
    for i in range(n):
        l = 0 if pos is None else int(pos[i])
        pb = log["pi_b"][i, :, l].tolist()
        pe = log["action_dist"][i, :, l].tolist()
        if posterior:
            acts = sorted(set(log["action"].tolist()))
            cnt = {a: 0.5 for a in acts}
            for j in range(n):
                if (log["context"][j] == log["context"][i]).all() and all(E[j, d] == E[i, d] for d in dims):
                    cnt[int(log["action"][j])] += 1
            tot = sum(cnt.values())
            out.append(sum((pe[a] / pb[a] if pb[a] > 0 else 0.0) * cnt[a] / tot for a in acts))
        else:
            P = log["p_e_a"]
            f = [math.prod(float(P[a, int(E[i, d]), d]) for d in dims) for a in range(A)]
            out.append(sum(p * v for p, v in zip(pe, f)) / sum(p * v for p, v in zip(pb, f)))
    return out


def units(log, w, sn):
    r = log["reward"].tolist()
    if sn:
        m = mean(w)
        if m == 0:
            return None
        return [a * b / m for a, b in zip(w, r)]
    return [a * b for a, b in zip(w, r)]


def ests(A, post):
    from obp import ope
    kw = dict(pi_a_x_e_estimator=Tab()) if post else {}
    return [(False, ope.MarginalizedInverseProbabilityWeighting(n_actions=A, **kw)),
            (True, ope.SelfNormalizedMarginalizedInverseProbabilityWeighting(n_actions=A, **kw))]


PB = np.array([[[0.25, 0.5], [0.75, 0.25], [0.0, 0.25]], [[0.5, 0.125], [0.25, 0.125], [0.25, 0.75]]])
PE = np.array([[[1.0, 0.0], [0.0, 0.5], [0.0, 0.5]], [[0.25, 1.0], [0.25, 0.0], [0.5, 0.0]]])


def pea(D, K):
    base = np.array([[[0.25, 0.5, 0.125], [0.5, 0.0, 0.25], [0.25, 0.5, 0.625]],
                     [[1.0, 0.25, 0.5], [0.0, 0.75, 0.25], [0.0, 0.0, 0.25]],
                     [[0.5, 0.125, 0.0], [0.25, 0.5, 1.0], [0.25, 0.375, 0.0]]])
    P = base[:, :K, :D].copy()
    return P / P.sum(axis=1, keepdims=True)


def logs(c, part, nparts, n, D, K, L, post):
    A = 3
    P = pea(D, K)
    menu = []
    for x, a in itertools.product(range(2), range(A)):
        for e in itertools.product(range(K), repeat=D):
            for l in range(L):
                if PB[x, a, l] == 0 or any(P[a, e[d], d] == 0 for d in range(D)):
                    continue
                for r in (1.0, -2.0):
                    menu.append((x, a, e, l, r))
    if n >= 2:
        menu = [m for k, m in enumerate(menu) if k % 2 == (m[0] + m[1] + m[3]) % 2]
    if n >= 3:
        menu = menu[::4]
    es = ests(A, post)
    for k, rows in enumerate(itertools.product(menu, repeat=n)):
        if k % nparts != part:
            continue
        x = np.array([r[0] for r in rows])
        pos = np.array([r[3] for r in rows]) if L > 1 else None
        log = dict(reward=np.array([r[4] for r in rows]), action=np.array([r[1] for r in rows]), action_embed=np.array([r[2] for r in rows]),
                   pi_b=PB[x][:, :, :L], action_dist=PE[x][:, :, :L], context=np.array([[1.0, 0.0], [0.5, -1.0]])[x])
        if not post:
            log["p_e_a"] = P
        with c.case("log", rows=rows, L=L, post=post):
            w = weights(log, A, range(D), pos, post)
            for sn, e in es:
                u = units(log, w, sn)
                if u is None:
                    continue
                got = e.estimate_policy_value(position=pos, **log)
                c.step()
                c.close(got, mean(u), "sn=%s posterior=%s value" % (sn, post))
            c.outcome([round(v, 6) for v in w])


def big(n, A, D, K, L, salt, x_levels=3):
    i = np.arange(n)
    a = (i * 5 + i // 3 + salt) % A
    E = np.array([[(ai * (d + 2) + (ii * (d + 1)) // 2 + salt) % K for d in range(D)] for ii, ai in zip(i, a)])
    x = (i * 7 + salt) % x_levels
    pb = ((np.arange(x_levels)[:, None, None] * 3 + np.arange(A)[None, :, None] * 5 + np.arange(L)[None, None, :] + salt) % 6 + 1.0)
    pe = ((np.arange(x_levels)[:, None, None] * 5 + np.arange(A)[None, :, None] * 3 + 2 * np.arange(L)[None, None, :] + salt) % 7 + 0.0)
    pe[pe.sum(axis=1, keepdims=True).repeat(A, 1) == 0] = 1.0
    P = ((np.arange(A)[:, None, None] * 3 + np.arange(K)[None, :, None] * 2 + np.arange(D)[None, None, :] * 5 + salt) % 5 + 1.0)
    return dict(reward=((i * 3 + E[:, 0] * 2 + salt) % 5) / 2.0 - 0.5, action=a, action_embed=E, pi_b=(pb / pb.sum(1, keepdims=True))[x], action_dist=(pe / pe.sum(1, keepdims=True))[x],
                p_e_a=P / P.sum(1, keepdims=True), context=np.eye(x_levels)[x]), (i * 3 + salt) % L


def ladder(c, n, A, D, K, L, salt, wide=False):
    for post, scale in itertools.product((False, True), (1.0, 2.0**30, 2.0**-30)):
        log, pos = big(n, A, D, K, L, salt)
        log["reward"] = log["reward"] * scale
        if wide:  # logging probabilities and embedding probabilities over a wide range
            for key, m in (("pi_b", 17), ("p_e_a", 13)):
                v = log[key] * 2.0 ** -((np.arange(log[key].shape[1])[None, :, None] * 5 + np.arange(log[key].shape[2])[None, None, :] * 3 + np.arange(log[key].shape[0])[:, None, None] * (4 if key == "p_e_a" else 0) + salt) % m)
                log[key] = v / v.sum(1, keepdims=True)
        if post:
            log.pop("p_e_a")
        position = pos if L > 1 else None
        w = weights(log, A, range(D), position, post)
        for sn, e in ests(A, post):
            with c.case("ladder", scale=scale, wide=wide, n=n, A=A, D=D, K=K, L=L, salt=salt, post=post, sn=sn):
                u = units(log, w, sn)
                if u is None:
                    continue
                fr = Frozen(log, position)
                mx = max(abs(v) for v in u)
                c.close(e.estimate_policy_value(position=position, **log), mean(u), "value", atol=1e-10 * mx)
                # embedding selection is irrelevant with one dimension
                if D == 1:
                    e2 = type(e)(n_actions=A, pi_a_x_e_estimator=Tab(), embedding_selection_method="exact")
                    c.close(e2.estimate_policy_value(position=position, **log), mean(u), "value with selection and one dimension", atol=1e-10 * mx)
                fr.check(c)
                c.step(2)
                c.outcome(round(mean(u), 6))


def select(method, theta, cnf, D, mind, scale):
    """all values admissible under the rule; (theta, cnf) are functions of a tuple of dims"""
    C = math.sqrt(6) - 1
    tol = 1e-9 * scale
    out = set()
    seen = set()

    def visit(acc, last, left, nxt):
        """acc: set of accepted subsets, last: the latest of them; left: subsets of this level still to visit; nxt(acc, last) continues with the next level"""
        key = (acc, last, left)
        if key in seen:
            return
        seen.add(key)
        if not left:
            nxt(acc, last)
            return
        top = max(cnf[s] for s in left)
        for s in left:
            if cnf[s] < top - tol:
                continue
            slack = min(cnf[s] + C * cnf[j] - abs(theta[j] - theta[s]) for j in acc)
            if slack >= -tol:
                visit(acc | {s}, s, tuple(t for t in left if t != s), nxt)
            if slack <= tol:
                out.add(last)

    full = tuple(range(D))
    if method == "exact":
        def level(k):
            def nxt(acc, last):
                if k - 1 < mind:
                    out.add(last)
                else:
                    visit(acc, last, tuple(itertools.combinations(full, k - 1)), level(k - 1))
            return nxt
        level(D)(frozenset([full]), full)
    else:
        def go(acc, last):
            if len(last) <= mind:
                out.add(last)
                return
            visit(acc, last, tuple(tuple(x for x in last if x != d) for d in last), go)
        go(frozenset([full]), full)
    return {s: theta[s] for s in out}


def selection(c, n, A, D, K, L, salt, scale=1.0):
    from obp import ope

    for post in (False, True):
        log, pos = big(n, A, D, K, L, salt)
        log["reward"] = log["reward"] * scale
        if post:
            log.pop("p_e_a")
        position = pos if L > 1 else None
        subsets = [s for k in range(1, D + 1) for s in itertools.combinations(range(D), k)]
        W = {s: weights(log, A, s, position, post) for s in subsets}
        for sn, cls in ((False, ope.MarginalizedInverseProbabilityWeighting), (True, ope.SelfNormalizedMarginalizedInverseProbabilityWeighting)):
            U = {s: units(log, W[s], sn) for s in subsets}
            theta = {s: mean(U[s]) for s in subsets}
            if U[subsets[-1]] is None or any(u is None for u in U.values()):
                continue
            for scale_r in (1.0,):
                for delta in (0.05, 0.3, 0.9, 0.99):
                    cnf = {s: math.sqrt(var(U[s]) / (n - 1)) * tquant(n - 1, 1 - delta / 2) for s in subsets}
                    sc = max([abs(v) for v in cnf.values()] + [abs(v) for v in theta.values()])
                    for method, mind in itertools.product(("exact", "greedy"), range(1, D + 1)):
                        with c.case("selection", n=n, scale=scale, A=A, D=D, K=K, L=L, salt=salt, post=post, sn=sn, delta=delta, method=method, mind=mind):
                            adm = select(method, theta, cnf, D, mind, sc)
                            kw = dict(pi_a_x_e_estimator=Tab()) if post else {}
                            e = cls(n_actions=A, embedding_selection_method=method, min_emb_dim=mind, delta=delta, **kw)
                            for rep in range(2):
                                got = float(e.estimate_policy_value(position=position, **log))
                                c.step()
                                c.true(any(abs(got - v) <= 1e-9 * sc for v in adm.values()), "value %r; the rule admits %r" % (got, adm))
                            c.outcome((method, tuple(sorted(adm))))


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n, A, D, K, L, salt in [(1, 2, 1, 2, 1, 0), (2, 3, 2, 2, 2, 1), (5, 3, 1, 3, 1, 2), (13, 4, 3, 3, 2, 0), (40, 5, 2, 4, 3, 1), (128, 6, 3, 2, 1, 3), (300, 4, 1, 5, 2, 0), (700, 8, 2, 3, 1, 0), (30, 4, 6, 3, 2, 1), (50, 30, 5, 2, 1, 2), (1100, 3, 2, 12, 1, 1), (420, 300, 2, 3, 1, 1), (300, 3, 1, 260, 1, 1)] + (
            [(2000, 10, 4, 5, 2, 1)] if th else []):
        out.append(("ladder", (n, A, D, K, L, salt)))
        out.append(("ladder", (n, A, D, K, L, salt, True)))
    for n in (2, 3, 5, 9, 20, 60) + ((200, 400) if th else ()):
        for salt in range(4):
            for D in (2, 3) + ((4,) if 5 <= n <= 9 or (th and n >= 5) else ()) + ((5,) if n == 9 and salt < 2 or (th and 9 <= n < 60) else ()):
                out.append(("selection", (n, 3 + salt % 2, D, 2 + salt % 2, 1 + salt // 2, salt)))
                if n in (3, 9, 20):
                    out.append(("selection", (n, 3 + salt % 2, D, 2 + salt % 2, 1 + salt // 2, salt, 2.0 ** (-24 if salt % 2 else 24))))
    for k in range(8):
        for post in (False, True):
            for n, D, K, L in ((1, 1, 3, 2), (1, 2, 3, 2), (2, 1, 3, 1), (2, 2, 2, 2) if th else (2, 2, 2, 1), (3, 1, 2, 1), (2, 1, 2, 2)):
                out.append(("logs", (k, 8, n, D, K, L, post)))
            if th:
                out.append(("logs", (k, 8, 3, 2, 2, 1, post)))
    return out
