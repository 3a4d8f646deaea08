"""C24: propensity and importance-weight estimators with a recording classifier."""
import itertools

import numpy as np

from mc import recmodel
from mc.core import Frozen
from mc.rng import ScriptedRNG

ID = "C24"
RULE = ("every log over small action/position alphabets is passed through fit, predict and fit_predict with a classifier that records its training rows and whose probabilities encode fit, row and class; "
        "fold membership, labels, evaluation-policy rows (for every outcome of the sampled actions) and the value returned for each round are decoded; calibrated scikit-learn models are compared with a hand-written cross-fit")
BOUNDS = {"quick": "2-4 rounds, 2-3 actions, 1-2 positions, all fold counts, all action/position assignments, all sampled-action outcomes on a 5-point grid; model probabilities from 1e-300 to 1-2^-44; real-model logs to 6000 rounds, 40 actions, 6 positions", "thorough": "up to 5 rounds, 3 positions, more seeds"}
ASSUMPTIONS = ["rounds are distinguishable by their context", "classifiers expose classes_ as scikit-learn classifiers do"]
AC2 = np.array([[0.5, 2.0], [1.5, -1.0], [3.0, 0.25]])


def contexts(n):
    return np.array([[1.0 + i, (i * i) % 5 - 2.0] for i in range(n)])


def dists(n, A, L, h):
    ad = np.zeros((n, A, L))
    for i in range(n):
        for p in range(L):
            w = np.array([((i + 2) * (a + 3) * (p + 5) + h) % 7 for a in range(A)], dtype=float)
            if w.sum() == 0:
                w[(i + p) % A] = 1.0
            ad[i, :, p] = w / w.sum()
    return ad


def small_ok(c, e, pos, n, k, L):
    lim = 0 if k == 1 else -(-n // k)
    c.true("No training data" in str(e) and min(pos.count(p) for p in range(L)) <= lim, "unexpected rejection: %s" % e)


def fold_report(c, folds, pos, n, k, L, what):
    """folds[i] = rounds (at i's position) its model was trained on"""
    if k == 1:
        for i in range(n):
            c.same(sorted(folds[i]), [j for j in range(n) if pos[j] == pos[i]], "%s: model of round %d was trained on" % (what, i))
        return
    for i in range(n):
        c.true(i not in folds[i], "%s: round %d is predicted by a model trained on it" % (what, i))
        c.true(all(pos[j] == pos[i] for j in folds[i]), "%s: model of position %d trained on rounds %s" % (what, pos[i], sorted(folds[i])))
    if L == 1:
        recmodel.check_folds(c, folds, n, k, what)
    else:
        for i in range(n):
            here = [j for j in range(n) if pos[j] == pos[i]]
            out = [j for j in here if j not in folds[i]]
            for j in out:
                c.same(sorted(folds[j]), sorted(folds[i]), "%s: rounds %d and %d are held out together" % (what, i, j))


def pscore(c, n, A, L):
    from obp.ope import PropensityScoreEstimator

    X = contexts(n)
    for acts in itertools.product(range(A), repeat=n):
        plist = [None] if L == 1 else [pp for pp in itertools.product(range(L), repeat=n) if set(pp) == set(range(L))]
        for pos in plist:
            P = [0] * n if pos is None else list(pos)
            for k in range(1, n + 1):
                for rs in ((0, 1) if k > 1 else (0,)):
                    for ev in (False, True):
                        with c.case("propensity", n=n, A=A, L=L, actions=acts, position=pos, folds=k, seed=rs, evaluate=ev):
                            recmodel.reset()
                            m = PropensityScoreEstimator(base_model=recmodel.RecClf(), n_actions=A, len_list=L, calibration_cv=1)
                            a = np.array(acts)
                            po = None if pos is None else np.array(pos)
                            fz = Frozen(X, a, po)
                            try:
                                got = np.asarray(m.fit_predict(context=X, action=a, position=po, n_folds=k, random_state=rs, evaluate_model_performance=ev))
                            except ValueError as e:
                                small_ok(c, e, P, n, k, L)
                                continue
                            c.step()
                            fz.check(c)
                            c.same(got.shape, (n,), "shape")
                            folds = {}
                            for i in range(n):
                                src = None
                                for s, lg in enumerate(recmodel.LOG):
                                    rows = recmodel.rows_of(lg["X"], X)
                                    c.true(rows is not None and len(set(rows)) == len(rows), "training contexts are not rows of the log")
                                    c.same([int(v) for v in lg["y"]], [acts[j] for j in rows], "training labels")
                                    c.true(lg["w"] is None, "sample weights")
                                    v = recmodel.code(s, X[i:i + 1])[0] / 1000 * (acts[i] + 1)
                                    if acts[i] in lg["y"] and abs(v - got[i]) < 1e-12:
                                        src = s
                                if src is None:
                                    # the model of this round never saw its action
                                    c.true(got[i] == 0.0, "propensity %r of round %d is no model's probability of its action" % (got[i], i))
                                    c.true(k > 1, "trained on the round itself, propensity is zero")
                                    if k > 1:
                                        cand = [r for r in (recmodel.rows_of(lg["X"], X) for lg in recmodel.LOG) if i not in r and all(P[j] == P[i] for j in r) and not any(acts[j] == acts[i] for j in r)]
                                        c.true(bool(cand), "zero propensity of round %d although every candidate model saw its action" % i)
                                        folds[i] = frozenset(cand[0]) if len({frozenset(x) for x in cand}) == 1 else None
                                else:
                                    folds[i] = frozenset(recmodel.rows_of(recmodel.LOG[src]["X"], X))
                            if all(v is not None for v in folds.values()):
                                fold_report(c, folds, P, n, k, L, "propensity")
                            if ev and k > 1:
                                y = np.concatenate([np.asarray(v) for v in m.eval_result["y"]])
                                pr = np.concatenate([np.asarray(v) for v in m.eval_result["proba"]])
                                c.same(sorted(int(v) for v in y), sorted(acts), "evaluation labels")
                                c.close(sorted(pr[np.arange(n), y]), sorted(got), "evaluation probabilities of the logged actions")
                            if k == 1:
                                c.close(m.predict(context=X, action=a, position=po), got, "predict after fit_predict")
                                perm = np.arange(n)[::-1]
                                c.close(m.predict(context=X[perm], action=a[perm], position=None if po is None else po[perm]), got[perm], "predict on reordered rounds")


def weights(c, n, A, L, method):
    from obp.ope import ImportanceWeightEstimator

    X = contexts(n)
    for acts in itertools.product(range(A), repeat=n):
        plist = [None] if L == 1 else [pp for pp in itertools.product(range(L), repeat=n) if set(pp) == set(range(L))]
        for pos in plist:
            P = [0] * n if pos is None else list(pos)
            h = sum(a * 3**i for i, a in enumerate(acts))
            ad = dists(n, A, L, h % 4)
            ac = AC2[:A] if h % 2 else None
            AC = np.eye(A) if ac is None or method == "raw" else ac
            for k in range(1, n + 1):
                for rs in ((0, 1) if k > 1 else (0,)):
                    for ev in (False, True):
                        with c.case("weights", n=n, A=A, L=L, method=method, actions=acts, position=pos, folds=k, seed=rs, evaluate=ev):
                            recmodel.reset()
                            m = ImportanceWeightEstimator(base_model=recmodel.RecClf(), n_actions=A, len_list=L, action_context=None if ac is None else ac.copy(), fitting_method=method, calibration_cv=1)
                            a = np.array(acts)
                            po = None if pos is None else np.array(pos)
                            fz = Frozen(X, a, po, ad)
                            try:
                                got = np.asarray(m.fit_predict(context=X, action=a, action_dist=ad, position=po, n_folds=k, random_state=rs, evaluate_model_performance=ev))
                            except ValueError as e:
                                small_ok(c, e, P, n, k, L)
                                continue
                            c.step()
                            fz.check(c)
                            c.same(got.shape, (n,), "shape")
                            info = [decode(c, lg, X, acts, P, ad, AC, method) for lg in recmodel.LOG]
                            folds, model = {}, {}
                            for i in range(n):
                                x = np.concatenate([X[i], AC[acts[i]]])[None]
                                src = []
                                for s in range(len(recmodel.LOG)):
                                    p = recmodel.code(s, x)[0] / 1000 * 2
                                    if abs(p / (1 - p) - got[i]) < 1e-12:
                                        src.append(s)
                                c.true(len(src) == 1, "weight %r of round %d is no model's odds at its own features" % (got[i], i))
                                rows, pp = info[src[0]]
                                c.same(pp, P[i], "position of the model used for round %d" % i)
                                folds[i] = frozenset(rows)
                                model[i] = src[0]
                            fold_report(c, folds, P, n, k, L, "importance weights")
                            if ev and k > 1:
                                y = np.concatenate([np.asarray(v) for v in m.eval_result["y"]])
                                pr = np.concatenate([np.asarray(v) for v in m.eval_result["proba"]])
                                c.same(sorted(int(v) for v in y), [0] * n + [1] * n, "evaluation labels")
                                c.close(sorted(pr[y == 0] / (1 - pr[y == 0])), sorted(got), "evaluation probabilities of the logged rows")
                            if k == 1:
                                c.close(m.predict(context=X, action=a, position=po), got, "predict after fit_predict")


def decode(c, lg, X, acts, P, ad, AC, method, fixed=None):
    """training rows of one fit -> (rounds, position)"""
    d = X.shape[1]
    y = np.asarray(lg["y"])
    c.true(set(y.tolist()) <= {0, 1}, "labels")
    beh = recmodel.rows_of(lg["X"][y == 0][:, :d], X)
    ev = recmodel.rows_of(lg["X"][y == 1][:, :d], X)
    c.true(beh is not None and ev is not None and len(set(beh)) == len(beh), "training contexts are not rows of the log")
    c.same(sorted(ev), sorted(beh), "logged and evaluation-policy rows cover different rounds")
    ps = {P[i] for i in beh}
    c.same(len(ps), 1, "training rows of several positions in one model")
    p = ps.pop()
    for r, i in zip(lg["X"][y == 0], beh):
        c.close(r[d:], AC[acts[i]], "action features of logged round %d" % i)
    for r, i in zip(lg["X"][y == 1], ev):
        if method == "raw":
            c.close(r[d:], ad[i, :, p], "evaluation-policy features of round %d" % i)
        else:
            cand = [a for a in range(AC.shape[0]) if np.allclose(r[d:], AC[a])]
            c.true(len(cand) == 1 and ad[i, cand[0], p] > 0, "evaluation-policy row of round %d has action %s with zero probability" % (i, cand))
            if fixed is not None:
                c.same(cand[0], fixed[i], "sampled action of round %d" % i)
    c.true(lg["w"] is None, "sample weights")
    return beh, p


def sampled(c, n, A, L):
    """every outcome of the sampled evaluation actions"""
    from obp.ope import ImportanceWeightEstimator

    grid = (0.0, 0.15, 0.4, 0.65, 0.999)
    X = contexts(n)
    acts = [i % A for i in range(n)]
    P = [i % L for i in range(n)]
    for h in range(3):
        ad = dists(n, A, L, h)
        for us in itertools.product(grid, repeat=n):
            with c.case("sampled", n=n, A=A, L=L, h=h, u=us):
                order = [i for p in range(L) for i in range(n) if P[i] == p]  # rounds are sampled position by position
                recmodel.reset()
                m = ImportanceWeightEstimator(base_model=recmodel.RecClf(), n_actions=A, len_list=L, calibration_cv=1)
                m.fit(context=X, action=np.array(acts), action_dist=ad, position=np.array(P), random_state=ScriptedRNG(uniforms=us))
                c.step()
                fixed = {}
                for u, i in zip(us, order):
                    cdf = np.cumsum(ad[i, :, P[i]])
                    near = np.abs(cdf - u).min() < 1e-9
                    fixed[i] = None if near else int(np.argmax(cdf > u))
                got = [decode(c, lg, X, acts, P, ad, np.eye(A), "sample") for lg in recmodel.LOG]
                c.same(sorted(p for _, p in got), list(range(L)), "one model per position")
                for lg in recmodel.LOG:
                    y = np.asarray(lg["y"])
                    for r in lg["X"][y == 1]:
                        i = recmodel.rows_of(r[None, :2], X)[0]
                        if fixed[i] is not None:
                            c.same(int(np.argmax(r[2:])), fixed[i], "action sampled for round %d" % i)


def defaults(c):
    """predict without positions, positions ignored for single-position estimators"""
    from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator

    for n, A in itertools.product((2, 3, 4), (2, 3)):
        X, a = contexts(n), np.array([i % A for i in range(n)])
        ad = dists(n, A, 1, 1)
        for fit_pos, pos in itertools.product((None, "zeros", "odd"), repeat=2):
            mk = {None: None, "zeros": np.zeros(n, int), "odd": np.arange(n) % 2}
            with c.case("default-position", n=n, A=A, fit=fit_pos, predict=pos):
                recmodel.reset()
                m = PropensityScoreEstimator(base_model=recmodel.RecClf(), n_actions=A, calibration_cv=1)
                m.fit(context=X, action=a, position=mk[fit_pos])
                got = m.predict(context=X, action=a, position=mk[pos]) if pos else m.predict(context=X, action=a)
                c.step()
                c.close(got, recmodel.code(0, X) / 1000 * (a + 1), "propensities")
                recmodel.reset()
                m = ImportanceWeightEstimator(base_model=recmodel.RecClf(), n_actions=A, calibration_cv=1)
                m.fit(context=X, action=a, action_dist=ad, position=mk[fit_pos])
                got = m.predict(context=X, action=a, position=mk[pos]) if pos else m.predict(context=X, action=a)
                c.step()
                p = recmodel.code(0, np.concatenate([X, np.eye(A)[a]], axis=1)) / 1000 * 2
                c.close(got, p / (1 - p), "weights")
    # prediction for rounds of one position only
    with c.case("one-position"):
        X, a, P = contexts(4), np.array([0, 1, 1, 0]), np.array([0, 1, 0, 1])
        ad = dists(4, 2, 2, 1)
        for cls, kw in ((PropensityScoreEstimator, {}), (ImportanceWeightEstimator, dict(action_dist=ad))):
            recmodel.reset()
            m = cls(base_model=recmodel.RecClf(), n_actions=2, len_list=2, calibration_cv=1)
            m.fit(context=X, action=a, position=P, **kw)
            full = m.predict(context=X, action=a, position=P)
            for p in (0, 1):
                c.close(m.predict(context=X[P == p], action=a[P == p], position=P[P == p]), full[P == p], "rounds of position %d alone" % p)
                c.step()


def real(c, seed):
    from sklearn.calibration import CalibratedClassifierCV
    from sklearn.linear_model import LogisticRegression
    from sklearn.model_selection import KFold

    from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator

    g = np.random.RandomState(seed)
    for n, A, L, k, cv in itertools.product((24, 40), (2, 3), (1, 2), (1, 2, 3), (1, 2)):
        X = g.normal(size=(n, 2))
        a = (np.arange(n) // L) % A
        pos = np.arange(n) % L
        ad = g.uniform(0.1, 1, size=(n, A, L))
        ad /= ad.sum(1, keepdims=True)
        mk = lambda: LogisticRegression(C=1.0)  # noqa: E731
        ref = lambda: mk() if cv == 1 else CalibratedClassifierCV(mk(), cv=cv)  # noqa: E731
        splits = [(np.arange(n), np.arange(n))] if k == 1 else list(KFold(n_splits=k, shuffle=True, random_state=5).split(X))
        with c.case("sklearn-propensity", n=n, A=A, L=L, folds=k, cv=cv, seed=seed):
            exp, ok = np.zeros(n), True
            for tr, te in splits:
                for p in range(L):
                    t, e = tr[pos[tr] == p], te[pos[te] == p]
                    cnt = [int((a[t] == x).sum()) for x in set(a[t])]
                    if len(cnt) < 2 or min(cnt) < cv:
                        ok = False
                        break
                    m = ref().fit(X[t], a[t])
                    full = np.zeros((len(e), A))
                    if len(e):
                        full[:, m.classes_] = m.predict_proba(X[e])
                    exp[e] = full[np.arange(len(e)), a[e]]
            if ok:
                got = PropensityScoreEstimator(base_model=mk(), n_actions=A, len_list=L, calibration_cv=cv).fit_predict(context=X, action=a, position=pos, n_folds=k, random_state=5)
                c.step()
                c.close(got, exp, "estimated propensities", rtol=1e-6)
        with c.case("sklearn-weights", n=n, A=A, L=L, folds=k, cv=cv, seed=seed):
            exp, ok = np.zeros(n), True
            for tr, te in splits:
                for p in range(L):
                    t, e = tr[pos[tr] == p], te[pos[te] == p]
                    if len(t) < 2 * cv:
                        ok = False
                        break
                    F = np.concatenate([np.concatenate([X[t], np.eye(A)[a[t]]], 1), np.concatenate([X[t], ad[t, :, p]], 1)])
                    m = ref().fit(F, np.array([0] * len(t) + [1] * len(t)))
                    if len(e):
                        q = m.predict_proba(np.concatenate([X[e], np.eye(A)[a[e]]], 1))[:, 1]
                        exp[e] = q / (1 - q)
            if ok:
                got = ImportanceWeightEstimator(base_model=mk(), n_actions=A, len_list=L, fitting_method="raw", calibration_cv=cv).fit_predict(context=X, action=a, action_dist=ad, position=pos, n_folds=k, random_state=5)
                c.step()
                c.close(got, exp, "estimated weights", rtol=1e-6)


from sklearn.base import BaseEstimator, ClassifierMixin


class FixedClf(ClassifierMixin, BaseEstimator):
    """the first feature is the probability of the largest class seen; the rest is split as 2:1:1.. over the others"""

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        p = np.asarray(X, dtype=float)[:, 0]
        k = len(self.classes_)
        if k == 1:
            return np.ones((len(p), 1))
        w = np.array([2.0] + [1.0] * (k - 2))
        return np.c_[(1 - p)[:, None] * (w / w.sum()), p]

    def predict(self, X):
        return self.classes_[np.argmax(self.predict_proba(X), axis=1)]


EXTREME = (1e-300, 1e-12, 1e-7, 1e-4, 1e-3, 0.02, 0.5, 0.98, 0.995, 0.9999, 1 - 2.0**-20, 1 - 2.0**-30, 1 - 2.0**-44, 0.0)


def extremes(c, A, L):
    """probabilities of every magnitude reach the user as they are: nothing is floored, capped or rounded"""
    from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator

    n = len(EXTREME) * L * A
    pr = np.array([EXTREME[(i // (L * A)) % len(EXTREME)] for i in range(n)])
    X = np.c_[pr, np.arange(n)]
    pos = np.arange(n) % L
    a = (np.arange(n) // L) % A
    ad = np.full((n, A, L), 1.0 / A)
    w = np.array([2.0] + [1.0] * (A - 2)) if A > 1 else None
    for k in (1, 2, 5):
        for rs in (0, 1):
            with c.case("extremes", A=A, L=L, folds=k, seed=rs):
                exp = np.array([pr[i] if a[i] == A - 1 else (1 - pr[i]) * w[a[i]] / w.sum() for i in range(n)])
                m = PropensityScoreEstimator(base_model=FixedClf(), n_actions=A, len_list=L, calibration_cv=1)
                got = m.fit_predict(context=X, action=a, position=pos, n_folds=k, random_state=rs)
                c.step()
                c.close(got, exp, "propensities", rtol=1e-9, atol=0)
                for method in ("raw", "sample"):
                    m = ImportanceWeightEstimator(base_model=FixedClf(), n_actions=A, len_list=L, fitting_method=method, calibration_cv=1)
                    got = m.fit_predict(context=X, action=a, action_dist=ad, position=pos, n_folds=k, random_state=rs)
                    c.step()
                    c.close(got, pr / (1 - pr), "importance weights", rtol=1e-6, atol=0)


def long(c, n, A, L, k):
    from sklearn.linear_model import LogisticRegression
    from sklearn.model_selection import KFold

    from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator

    g = np.random.RandomState(n + A + L)
    X = g.normal(size=(n, 3))
    a = (np.arange(n) // L) % A
    pos = np.arange(n) % L
    ad = g.uniform(0, 1, size=(n, A, L)) ** 2
    ad /= ad.sum(1, keepdims=True)
    AC = np.round(g.normal(size=(A, 2)), 3)
    mk = lambda: LogisticRegression(C=0.7, max_iter=300)  # noqa: E731
    splits = [(np.arange(n), np.arange(n))] if k == 1 else list(KFold(n_splits=k, shuffle=True, random_state=6).split(X))
    with c.case("long", n=n, A=A, L=L, folds=k):
        e1, e2 = np.zeros(n), np.zeros(n)
        for tr, te in splits:
            for p in range(L):
                t, e = tr[pos[tr] == p], te[pos[te] == p]
                if not len(e):
                    continue
                m = mk().fit(X[t], a[t])
                full = np.zeros((len(e), A))
                full[:, m.classes_] = m.predict_proba(X[e])
                e1[e] = full[np.arange(len(e)), a[e]]
                F = np.concatenate([np.c_[X[t], np.eye(A)[a[t]]], np.c_[X[t], ad[t, :, p]]])
                q = mk().fit(F, np.array([0] * len(t) + [1] * len(t))).predict_proba(np.c_[X[e], np.eye(A)[a[e]]])[:, 1]
                e2[e] = q / (1 - q)
        got = PropensityScoreEstimator(base_model=mk(), n_actions=A, len_list=L, calibration_cv=1).fit_predict(context=X, action=a, position=pos, n_folds=k, random_state=6)
        c.step()
        c.close(got, e1, "estimated propensities", rtol=1e-5)
        got = ImportanceWeightEstimator(base_model=mk(), n_actions=A, len_list=L, fitting_method="raw", calibration_cv=1, action_context=AC if k == 1 else None).fit_predict(context=X, action=a, action_dist=ad, position=pos, n_folds=k, random_state=6)
        c.step()
        c.close(got, e2, "estimated weights", rtol=1e-5)


def malformed(c):
    from obp.ope import ImportanceWeightEstimator, PropensityScoreEstimator

    X, a, P = contexts(4), np.array([0, 1, 1, 0]), np.array([0, 1, 0, 1])
    ad = dists(4, 2, 2, 1)
    for cls, extra in ((PropensityScoreEstimator, {}), (ImportanceWeightEstimator, dict(action_dist=ad))):
        good = dict(base_model=recmodel.RecClf(), n_actions=2, len_list=2, calibration_cv=1)
        for k, v in [("n_actions", x) for x in (1, 0, 2.0, "2", None)] + [("len_list", x) for x in (0, -1, 1.0, None)] + [("calibration_cv", x) for x in (1.5, "2", None)] + [("base_model", x) for x in (None, 1, recmodel.RecClf)] + ([("fitting_method", x) for x in ("x", None, 1)] if extra else []):
            with c.case("malformed-init", cls=cls.__name__, arg=k, value=repr(v)):
                c.rejects(lambda: cls(**dict(good, **{k: v})), "%s=%r" % (k, v))
        m = cls(**good)
        w = dict(context=X, action=a, position=P, **extra)
        with c.case("wellformed", cls=cls.__name__):
            m.fit_predict(**w)
            m.fit(**w)
        F = [("context", X[0]), ("context", X[:3]), ("context", X.tolist()), ("action", a[:3]), ("action", a.astype(float)), ("action", a - 1), ("position", P + 1), ("position", P[:3]), ("position", P - 1)]
        if extra:
            F += [("action_dist", None), ("action_dist", ad[:3]), ("action_dist", ad[:, :, 0]), ("action_dist", ad[:, :, :1]), ("action_dist", ad * 0.5)]
        for k, v in F:
            for fn in ("fit", "fit_predict"):
                with c.case("malformed", cls=cls.__name__, arg=k, value=repr(v)[:40], fn=fn):
                    c.rejects(lambda: getattr(m, fn)(**dict(w, **{k: v})), "%s: bad %s" % (fn, k))
        for kf in (0, -1, 1.5, "2", None):
            with c.case("malformed-folds", cls=cls.__name__, folds=repr(kf)):
                c.rejects(lambda: m.fit_predict(n_folds=kf, **w), "n_folds=%r" % (kf,))


def jobs(tier):
    deep = tier == "thorough"
    sh = [(2, 2, 1), (3, 2, 1), (4, 2, 1), (3, 3, 1), (3, 2, 2), (4, 2, 2)] + ([(5, 2, 1), (4, 3, 1), (5, 2, 2), (4, 3, 2), (5, 2, 3)] if deep else [])
    J = [("pscore", s) for s in sh] + [("weights", s + (m,)) for s in sh for m in ("sample", "raw")]
    J += [("sampled", s) for s in ((2, 2, 1), (3, 2, 1), (3, 3, 1), (3, 2, 2), (4, 2, 2))] + [("defaults", ()), ("malformed", ())] + [("real", (s,)) for s in range(3 if deep else 1)]
    J += [("extremes", s) for s in ((2, 1), (3, 1), (2, 2), (4, 3))] + [("long", s) for s in [(1500, 3, 1, 3), (6000, 2, 1, 2), (600, 4, 6, 2), (900, 40, 1, 1), (240, 2, 1, 11)] + ([(20000, 3, 3, 4)] if deep else [])]
    return J
