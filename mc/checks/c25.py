"""C25: slate Q-function regression against exact dynamic programming with a saturated (lookup-table) base model."""
import itertools

import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin

from mc.core import Frozen

ID = "C25"
RULE = ("every small slate log (all actions, rewards and evaluation-policy rows over small alphabets) is fitted with a lookup-table regressor (weighted mean of the targets per distinct feature row, a constant elsewhere); "
        "the predicted Q of every slate, position and action is compared with a tabular backward recursion that never looks at feature encodings")
BOUNDS = {"quick": "1-3 slates, length 1-3, 2-3 actions, 2 contexts, both fitting methods, all action assignments, 4 reward patterns, refits and prediction on other logs; ladder to 14 positions, 12 actions, 1200 slates, weights to 1e6", "thorough": "up to 4 slates, length 4, 6 reward patterns"}
ASSUMPTIONS = ["the base model depends on its features only through which rows are equal"]
UNSEEN = 0.625


class Table(RegressorMixin, BaseEstimator):
    """weighted mean per distinct feature row; UNSEEN where no weight was seen"""

    def fit(self, X, y, sample_weight=None):
        X, y = np.asarray(X, dtype=float), np.asarray(y, dtype=float)
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, dtype=float)
        if not (len(X) == len(y) == len(w) and y.ndim == 1 and w.ndim == 1):
            raise RuntimeError("bad training data")
        self.t_ = {}
        for r, v, k in zip(X, y, w):
            s = self.t_.setdefault(tuple(np.round(r, 9)), [0.0, 0.0])
            s[0] += k * v
            s[1] += k
        return self

    def predict(self, X):
        return np.array([(lambda s: s[0] / s[1] if s is not None else UNSEEN)(self.t_.get(tuple(np.round(r, 9)))) for r in np.asarray(X, dtype=float)])


CTX = np.array([[0.0, 1.5], [2.0, -1.0]])


def ref_fit(X, acts, rew, w, dist, L, A):
    """tables[l][(x, a_1..a_l)] = weighted mean target, by backward recursion"""
    n = len(acts)
    tab = [dict() for _ in range(L)]
    for l in range(L - 1, -1, -1):
        acc = {}
        for i in range(n):
            t = rew[i][l]
            if l + 1 < L:
                t += sum(dist[i, l + 1, a] * tab[l + 1].get((X[i],) + tuple(acts[i][: l + 1]) + (a,), UNSEEN) for a in range(A))
            s = acc.setdefault((X[i],) + tuple(acts[i][: l + 1]), [0.0, 0.0])
            s[0] += w[i][l] * t
            s[1] += w[i][l]
        tab[l] = {k: s[0] / s[1] for k, s in acc.items()}
    return tab


def ref_predict(tab, X, acts, L, A):
    return np.array([[[tab[l].get((X[i],) + tuple(acts[i][:l]) + (a,), UNSEEN) for a in range(A)] for l in range(L)] for i in range(len(acts))]).ravel()


def rewards(n, L, h):
    return [[[float((i + l) % 2), (i * 3 + l * 2 + 1) / 4.0, -1.0 + (i + 2 * l) % 3, 0.0, 2.5 * (l + 1) - i, 1.0][h] for l in range(L)] for i in range(n)]


def weights_of(n, L, h):
    b = [[(1e-6 if (i + l + h) % 4 == 3 else ((i + 2 * l + h) % 3 + 1) / 4.0 / (l + 1)) for l in range(L)] for i in range(n)]
    e = [[((2 * i + l + h) % 4 + 1) / 5.0 / (l + 1) for l in range(L)] for i in range(n)]
    return b, e


def dist_of(n, L, A, h):
    d = np.zeros((n, L, A))
    for i in range(n):
        for l in range(L):
            v = np.array([((i + 1) * (a + 2) + l * (a + 1) + h) % 5 for a in range(A)], dtype=float)
            if v.sum() == 0:
                v[(i + l) % A] = 1.0
            d[i, l] = v / v.sum()
    return d


def run(c, n, L, A, nh):
    from obp.ope import SlateRegressionModel

    for flat in itertools.product(range(A), repeat=n * L):
        acts = [list(flat[i * L:(i + 1) * L]) for i in range(n)]
        key = sum(a * 3**i for i, a in enumerate(flat))
        for xs in itertools.product((0, 1), repeat=n):
            if xs[0] == 1:
                continue
            h = (key + sum(xs)) % nh
            for method in ("normal", "iw"):
                with c.case("slate-q", n=n, L=L, A=A, actions=flat, contexts=xs, method=method, h=h):
                    rew = rewards(n, L, h)
                    b, e = weights_of(n, L, h)
                    dist = dist_of(n, L, A, h)
                    X = CTX[list(xs)]
                    a = np.array(flat)
                    kw = dict(context=X, action=a, reward=np.array(rew).ravel(), pscore_cascade=np.array(b).ravel(),
                              evaluation_policy_pscore_cascade=np.array(e).ravel(), evaluation_policy_action_dist=dist.ravel())
                    fz = Frozen(*kw.values())
                    m = SlateRegressionModel(base_model=Table(), len_list=L, n_unique_action=A, fitting_method=method)
                    w = [[1.0] * L] * n if method == "normal" else [[e[i][l] / b[i][l] for l in range(L)] for i in range(n)]
                    tab = ref_fit(xs, acts, rew, w, dist, L, A)
                    exp = ref_predict(tab, xs, acts, L, A)
                    got = m.fit_predict(**kw)
                    c.step()
                    c.same(np.shape(got), (n * L * A,), "shape")
                    c.close(got, exp, "fit_predict")
                    # prediction on another log: reversed slates, flipped contexts, shifted actions
                    x2 = [1 - v for v in reversed(xs)]
                    a2 = [[(v + 1) % A for v in s] for s in reversed(acts)]
                    c.close(m.predict(context=CTX[x2], action=np.array(a2).ravel()), ref_predict(tab, x2, a2, L, A), "predict on another log")
                    c.close(m.predict(context=X[::-1], action=np.array(acts[::-1]).ravel()), ref_predict(tab, xs[::-1], acts[::-1], L, A), "predict on the reversed log")
                    fz.check(c)
                    # refitting forgets the first log
                    kw2 = dict(kw, context=CTX[x2], action=np.array(a2).ravel())
                    m.fit(**kw2)
                    c.close(m.predict(context=CTX[x2], action=np.array(a2).ravel()), ref_predict(ref_fit(x2, a2, rew, w, dist, L, A), x2, a2, L, A), "after refit")


def ladder(c, n, L, A):
    """longer slates and logs"""
    from obp.ope import SlateRegressionModel

    for v, method in itertools.product((0, 1), ("normal", "iw")):
        with c.case("ladder", n=n, L=L, A=A, variant=v, method=method):
            xs = [(i // 3) % 2 for i in range(n)]
            acts = [[(i * (l + 1) + (i // 5) * v + l * l) % A for l in range(L)] for i in range(n)]
            rew = [[((i * 7 + l * 3) % 11) / 7.0 - 0.5 * v for l in range(L)] for i in range(n)]
            b, e = weights_of(n, L, v)
            dist = dist_of(n, L, A, v)
            w = [[1.0] * L] * n if method == "normal" else [[e[i][l] / b[i][l] for l in range(L)] for i in range(n)]
            m = SlateRegressionModel(base_model=Table(), len_list=L, n_unique_action=A, fitting_method=method)
            a = np.array(acts).ravel()
            got = m.fit_predict(context=CTX[xs], action=a, reward=np.array(rew).ravel(), pscore_cascade=np.array(b).ravel(), evaluation_policy_pscore_cascade=np.array(e).ravel(), evaluation_policy_action_dist=dist.ravel())
            c.step()
            c.close(got, ref_predict(ref_fit(xs, acts, rew, w, dist, L, A), xs, acts, L, A), "fit_predict")


def reject(c):
    from obp.ope import SlateRegressionModel

    n, L, A = 2, 2, 3
    b, e = weights_of(n, L, 0)
    good = dict(context=CTX, action=np.array([0, 1, 2, 0]), reward=np.ones(4), pscore_cascade=np.array(b).ravel(), evaluation_policy_pscore_cascade=np.array(e).ravel(), evaluation_policy_action_dist=dist_of(n, L, A, 0).ravel())
    bad = []
    for k in good:
        bad.append((k, None))
        bad.append((k, good[k][:-1]))
        bad.append((k, good[k][None]))
        bad.append((k, list(good[k])))
    for v in (-1, 3):
        for i in range(4):
            z = good["action"].copy()
            z[i] = v
            bad.append(("action", z))
    bad.append(("action", good["action"].astype(float)))
    for k in ("pscore_cascade", "evaluation_policy_pscore_cascade"):
        for v in (0.0, -0.25, 1.25):
            for i in range(4):
                z = good[k].copy()
                z[i] = v
                bad.append((k, z))
    for i in range(4 * A):
        z = good["evaluation_policy_action_dist"].copy()
        z[i] += 0.125
        bad.append(("evaluation_policy_action_dist", z))
    for meth in ("normal", "iw"):
        for k, v in bad:
            with c.case("reject", method=meth, argument=k, value=v):
                m = SlateRegressionModel(base_model=Table(), len_list=L, n_unique_action=A, fitting_method=meth)
                c.rejects(lambda: m.fit(**dict(good, **{k: v})), "fit with %s=%r" % (k, v))
                c.rejects(lambda: m.fit_predict(**dict(good, **{k: v})), "fit_predict with %s=%r" % (k, v))
                c.step()
    for k, v in [("len_list", 0), ("len_list", 1.5), ("n_unique_action", 1), ("fitting_method", "mrdr"), ("fitting_method", None), ("base_model", "x")]:
        with c.case("reject-init", argument=k, value=v):
            c.rejects(lambda: SlateRegressionModel(**dict(dict(base_model=Table(), len_list=2, n_unique_action=3), **{k: v})), "%s=%r" % (k, v))
            c.step()


def jobs(tier):
    out = [("reject", ())]
    for n in (1, 2, 3):
        for L in (1, 2, 3):
            for A in (2, 3):
                if A ** (n * L) * 2 ** (n - 1) <= (6000 if tier == "quick" else 80000):
                    out.append(("run", (n, L, A, 4 if tier == "quick" else 6)))
    out += [("ladder", x) for x in ((12, 5, 2), (20, 6, 2), (30, 7, 3), (8, 10, 2), (1200, 2, 3), (1200, 3, 2), (60, 2, 12), (5, 14, 3))]
    if tier != "quick":
        out += [("run", (4, 2, 2, 6)), ("run", (2, 4, 2, 6)), ("run", (1, 4, 3, 6)), ("run", (4, 1, 3, 6)), ("run", (2, 2, 4, 6))]
    return out
