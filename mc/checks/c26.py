"""C26: classifier- and regression-based offline policy learners."""
import itertools

import numpy as np

from mc import recmodel
from mc.checks.c25 import UNSEEN, Table
from mc.core import Frozen
from mc.rng import WorldRNG

ID = "C26"
RULE = ("every small log (all actions, positions, rewards, propensity rows) is fitted by IPWLearner with a recording classifier and by QLearner with a lookup-table regressor, "
        "and the training rows and weights, deterministic choices, scores, choice probabilities and (for every grid of Gumbel draws) sampled rankings are compared with the documented reductions")
BOUNDS = {"quick": "2-4 rounds, 2-3 actions, 1-3 positions, all action assignments, 4 reward/propensity patterns, Gumbel grids of 3 values per action, refits", "thorough": "up to 5 rounds and 4 actions, 4 Gumbel values"}
ASSUMPTIONS = ["rounds are distinguishable by their context for IPWLearner", "ranking ties are not exercised"]


def contexts(n):
    return np.array([[1.0 + i, (i * i) % 5 - 2.0] for i in range(n)])


def pattern(n, h, neg=False):
    r = np.array([[float((i + 1) % 2), (i * 3 + 1) / 4.0, 0.0 if i % 3 == 1 else 2.0, 1.0][h] for i in range(n)])
    if neg:
        r = r - 0.75
    ps = np.array([((i * 5 + h) % 7 + 1) / 8.0 for i in range(n)])
    if h == 1:
        r[::2] = r[0] + 1e-9 * np.arange(len(r[::2]))  # almost equal
        ps[-1] = 1e-7
    if h == 3:
        ps[0] = 2e-5
    return r, ps


def positions(n, L):
    if L == 1:
        return [None, tuple(0 for _ in range(n))]
    return [p for p in itertools.product(range(L), repeat=n) if set(p) == set(range(L))]


def soft(v):
    e = np.exp(v - v.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


def onehot_max(c, dist, score, what):
    """dist picks a maximiser of score for every round and position"""
    c.same(dist.shape, score.shape, what + " shape")
    n, A, L = score.shape
    for i in range(n):
        for p in range(L):
            d = dist[i, :, p]
            c.true(sorted(d) == [0.0] * (A - 1) + [1.0], "%s: not a choice of one action: %s" % (what, d))
            c.true(score[i, d.argmax(), p] >= score[i, :, p].max() - 1e-12, "%s: round %d position %d picks action %d, scores %s" % (what, i, p, d.argmax(), score[i, :, p]))


def rankings(c, learner, X, score, tier_vals, A, L):
    """every Gumbel grid for one round; two rounds get different rows of the grid"""
    f = score.mean(2)
    for tau in (1, 0.25, 4.0, 2e-3):
        for g in itertools.product(tier_vals, repeat=A):
            draws = []
            for i in range(len(X)):
                # every other grid: noise that almost cancels the score differences
                d = [g[(a + i) % A] + (0.0137 * a + 0.0071 * i) * (1e-6 if g.count(tier_vals[-1]) % 2 else 1) for a in range(A)]
                draws.append([v - f[i, a] / tau for a, v in enumerate(d)] if g.count(tier_vals[-1]) % 2 else d)
            rng = WorldRNG()
            rng.program(gumbels=[v for row in draws for v in row])
            got = learner.sample_action(X, tau=tau, random_state=rng)
            c.step()
            c.same(got.shape, (len(X), A, L), "sample_action shape")
            for i in range(len(X)):
                s = [f[i, a] / tau + draws[i][a] for a in range(A)]
                order = sorted(range(A), key=lambda a: -s[a])
                srt = sorted(s)
                if min(b - a for a, b in zip(srt, srt[1:])) < 1e-9:
                    continue
                exp = np.zeros((A, L))
                for p in range(L):
                    exp[order[p], p] = 1
                c.same(got[i], exp, "sampled ranking of round %d (tau %s, noise %s)" % (i, tau, draws[i]))
    a = learner.sample_action(X, tau=1.0, random_state=7)
    c.same(a, learner.sample_action(X, tau=1.0, random_state=7), "sample_action with the same seed")
    for i in range(len(X)):
        for p in range(L):
            c.same(sorted(a[i, :, p]), [0.0] * (A - 1) + [1.0], "sampled action")
        c.true(a[i].sum(axis=1).max() <= 1, "ranking repeats an action")


def ipw(c, n, A, L):
    from obp.policy import IPWLearner

    X = contexts(n)
    for acts in itertools.product(range(A), repeat=n):
        for pos in positions(n, L):
            P = list(pos) if pos is not None else [0] * n
            h = (sum(a * 3**i for i, a in enumerate(acts)) + sum(P)) % 4
            r, ps = pattern(n, h)
            for use_ps in (True, False):
                with c.case("ipw", n=n, A=A, L=L, actions=acts, position=pos, h=h, pscore=use_ps):
                    recmodel.reset()
                    m = IPWLearner(n_actions=A, len_list=L, base_classifier=recmodel.RecClf())
                    a = np.array(acts)
                    po = None if pos is None else np.array(pos)
                    fz = Frozen(X, a, r, ps, po)
                    for rnd in range(2):
                        recmodel.reset()
                        rr, aa = (r, a) if rnd == 0 else (np.roll(r, 1), (a + 1) % A)
                        m.fit(context=X, action=aa, reward=rr, pscore=ps if use_ps else None, position=po)
                        c.step()
                        c.same(len(recmodel.LOG), L, "number of classifier fits")
                        model = {}
                        for s, lg in enumerate(recmodel.LOG):
                            rows = recmodel.rows_of(lg["X"], X)
                            c.true(rows is not None, "training contexts are not rows of the log")
                            p = P[rows[0]]
                            model[p] = s
                            c.same(sorted(rows), [i for i in range(n) if P[i] == p], "rounds the classifier of position %d is trained on" % p)
                            c.same([int(v) for v in lg["y"]], [int(aa[i]) for i in rows], "training labels")
                            c.true(lg["w"] is not None, "no sample weights")
                            if use_ps:
                                c.close(lg["w"], [rr[i] / ps[i] for i in rows], "sample weights")
                            else:
                                w = np.asarray(lg["w"])
                                sc = w.sum() / max(rr[rows].sum(), 1e-300) if rr[rows].sum() else 1.0
                                c.true(sc > 0, "uniform propensities give non-positive weights")
                                c.close(w, rr[rows] * sc, "sample weights under uniform propensities")
                        c.same(sorted(model), list(range(L)), "positions trained")
                        score = np.zeros((n, A, L))
                        for p in range(L):
                            for b in {int(aa[i]) for i in range(n) if P[i] == p}:
                                score[:, b, p] = recmodel.code(model[p], X) / 1000 * (b + 1)
                        c.close(m.predict_score(X), score, "predict_score")
                        onehot_max(c, m.predict(X), score, "predict")
                        c.close(m.predict_score(X[::-1]), score[::-1], "predict_score on reversed rounds")
                        if L == 1:
                            for tau in (1, 0.02, 5.0, 1e-3, 200.0):
                                c.close(m.predict_proba(X, tau=tau), soft(score / tau), "predict_proba tau=%s" % tau)
                    fz.check(c)


def qlearn(c, n, A, L, clf):
    from obp.policy import QLearner
    from sklearn.dummy import DummyClassifier

    ctx = np.array([[0.0, 1.5], [2.0, -1.0]])
    for acts in itertools.product(range(A), repeat=n):
        for pos in positions(n, L):
            P = list(pos) if pos is not None else [0] * n
            xs = [(i * (1 + acts[0]) + acts[-1]) % 2 for i in range(n)]
            h = (sum(a * 3**i for i, a in enumerate(acts)) + sum(P)) % 4
            r, ps = pattern(n, h, neg=True)
            X = ctx[xs]
            for method in ("normal", "iw"):
                for use_ps in (True, False):
                    with c.case("q", n=n, A=A, L=L, actions=acts, position=pos, contexts=xs, h=h, method=method, pscore=use_ps):
                        m = QLearner(n_actions=A, len_list=L, base_model=Table(), fitting_method=method)
                        a = np.array(acts)
                        po = None if pos is None else np.array(pos)
                        fz = Frozen(X, a, r, ps, po)
                        for rnd in range(2):
                            rr, aa = (r, a) if rnd == 0 else (np.roll(r, 1), (a + 1) % A)
                            m.fit(context=X, action=aa, reward=rr, pscore=ps if use_ps else None, position=po)
                            c.step()
                            q = np.full((2, A, L), UNSEEN)
                            for x in (0, 1):
                                for b in range(A):
                                    for p in range(L):
                                        rows = [i for i in range(n) if xs[i] == x and aa[i] == b and P[i] == p]
                                        if rows:
                                            w = [1 / ps[i] if method == "iw" and use_ps else 1.0 for i in rows]
                                            q[x, b, p] = sum(k * rr[i] for k, i in zip(w, rows)) / sum(w)
                            c.close(m.predict_score(ctx), q, "predict_score")
                            c.close(m.predict_score(X), q[xs], "predict_score on the training contexts")
                            onehot_max(c, m.predict(ctx), q, "predict")
                            for tau in (1, 0.02, 5.0, 1e-3, 200.0):
                                c.close(m.predict_proba(ctx, tau=tau), soft(q / tau), "predict_proba tau=%s" % tau)
                        fz.check(c)


def iw_weights(c, n, A, L):
    """importance-weighted fitting hands the base model weights proportional to 1/propensity at each position"""
    from obp.policy import QLearner

    X = contexts(n)
    for acts in itertools.product(range(A), repeat=n):
        for pos in positions(n, L):
            P = list(pos) if pos is not None else [0] * n
            h = (sum(acts) + sum(P)) % 4
            r, ps = pattern(n, h, neg=True)
            with c.case("iw-weights", n=n, A=A, L=L, actions=acts, position=pos, h=h):
                recmodel.reset()
                QLearner(n_actions=A, len_list=L, base_model=recmodel.RecReg(), fitting_method="iw").fit(
                    context=X, action=np.array(acts), reward=r, pscore=ps, position=None if pos is None else np.array(pos))
                c.step()
                seen = []
                for lg in recmodel.LOG:
                    rows = recmodel.rows_of(lg["X"][:, :2], X)
                    c.true(rows is not None and lg["w"] is not None, "training rows or weights")
                    seen += rows
                    k = lg["w"] * ps[rows]
                    c.true((k > 0).all() and np.allclose(k, k[0]), "weights %s, propensities %s" % (lg["w"], ps[rows]))
                c.same(sorted(seen), list(range(n)), "rounds used for training")


def sampling(c, A, L, kind, vals):
    from obp.policy import IPWLearner, QLearner

    n = max(2, L) + 1
    for h in range(3):
        X = contexts(n)
        acts = np.array([(i * (h + 1)) % A for i in range(n)])
        pos = np.array([i % L for i in range(n)])
        r, ps = pattern(n, h)
        with c.case("sampling", A=A, L=L, kind=kind, h=h):
            if kind == "ipw":
                recmodel.reset()
                m = IPWLearner(n_actions=A, len_list=L, base_classifier=recmodel.RecClf())
            else:
                m = QLearner(n_actions=A, len_list=L, base_model=Table())
            m.fit(context=X, action=acts, reward=r, pscore=ps, position=pos)
            score = m.predict_score(X[:2])
            # make differences visible at this temperature
            rankings(c, m, X[:2], score, vals, A, L)


def reject(c):
    from obp.policy import IPWLearner, QLearner

    X = contexts(3)
    good = dict(context=X, action=np.array([0, 1, 1]), reward=np.ones(3), pscore=np.full(3, 0.5), position=np.array([0, 1, 0]))
    bad = [("context", X[:2]), ("context", X[0]), ("context", None), ("action", np.array([0, 1])), ("action", np.array([0.0, 1, 1])), ("action", np.array([0, -1, 1])),
           ("reward", np.ones(2)), ("reward", np.ones((3, 1))), ("reward", "x"), ("pscore", np.array([0.5, 0.0, 0.5])), ("pscore", np.array([0.5, -0.1, 0.5])), ("pscore", np.ones(2)),
           ("position", np.array([0, 1])), ("position", np.array([0.0, 1, 0])), ("position", np.array([0, -1, 0])), ("position", None)]
    for name, mk in (("ipw", lambda: IPWLearner(n_actions=2, len_list=2, base_classifier=recmodel.RecClf())), ("q", lambda: QLearner(n_actions=2, len_list=2, base_model=Table()))):
        for k, v in bad + ([("reward", np.array([1.0, -0.5, 1.0]))] if name == "ipw" else []):
            with c.case("reject", learner=name, argument=k, value=v):
                c.rejects(lambda: mk().fit(**dict(good, **{k: v})), "fit with %s=%r" % (k, v))
                c.step()
        m = mk()
        m.fit(**good)
        for ctx in (X[0], X[None], None, [[1.0, 2.0]]):
            for meth in ("predict", "predict_score", "sample_action"):
                with c.case("reject-predict", learner=name, method=meth, context=ctx):
                    c.rejects(lambda: getattr(m, meth)(ctx), meth)
        for tau in (-1.0, "1", None):
            with c.case("reject-tau", learner=name, tau=tau):
                c.rejects(lambda: m.sample_action(X, tau=tau), "tau=%r" % (tau,))
        if name == "q":
            with c.case("reject-tau", learner=name, tau=-1.0, method="predict_proba"):
                c.rejects(lambda: m.predict_proba(X, tau=-1.0), "tau")
    for L, A in ((0, 2), (3, 2), (1, 1), (1.5, 2), (1, 2.0)):
        for name, cls in (("ipw", IPWLearner), ("q", QLearner)):
            with c.case("reject-init", learner=name, n_actions=A, len_list=L):
                c.rejects(lambda: cls(n_actions=A, len_list=L, **({} if name == "ipw" else {"base_model": Table()})), "n_actions=%r len_list=%r" % (A, L))


def jobs(tier):
    q = tier == "quick"
    out = [("reject", ())]
    for n in (2, 3, 4) if q else (2, 3, 4, 5):
        for A in (2, 3) if q else (2, 3, 4):
            for L in (1, 2, 3):
                if L > A or L > n:
                    continue
                if A**n * max(1, L**n) > (1500 if q else 30000):
                    continue
                out += [("ipw", (n, A, L)), ("qlearn", (n, A, L, False)), ("iw_weights", (n, A, L))]
    vals = (-1.0, 0.05, 0.6) if q else (-1.0, 0.05, 0.4, 1.1)
    for A in (2, 3, 4):
        for L in range(1, A + 1):
            out += [("sampling", (A, L, k, vals)) for k in ("ipw", "q")]
    return out
