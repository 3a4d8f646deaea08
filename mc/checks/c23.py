"""C23: reward models with a recording base model: who trained on what, with which weights, and who predicted what."""
import itertools

import numpy as np

from mc import recmodel
from mc.core import Frozen

ID = "C23"
RULE = ("every log over small action/position/reward alphabets is passed through fit, predict and fit_predict with a base model that records its training data and whose predictions encode the fit and the feature row; "
        "fold membership, features, targets and sample weights are decoded and compared with the documented fitting method; real scikit-learn models are compared with a hand-written cross-fit")
BOUNDS = {"quick": "2-5 rounds, 2-3 actions, 1-2 positions, all fold counts, 3 fitting methods, all action/position assignments; ladder of 9-40 rounds; real-model histories up to 6500 rounds, 131 actions, 6 positions, 12 folds, propensities to 1e-6", "thorough": "up to 6 rounds and 3 positions, more seeds"}
ASSUMPTIONS = ["rounds are distinguishable by their context (the recording model identifies training rows by features)"]


def world(n, A, L, acts, pos, dist_kind, seed=0):
    ctx = np.array([[1.0 + i, (i * i) % 5 - 2.0] for i in range(n)])
    r = np.array([(i * 7 + 3) % 4 * 0.5 + 0.1 for i in range(n)])
    if dist_kind == 1:
        r[0] += 2.0**31
    ps = np.array([(0.1, 1e-6, 0.5, 0.9, 1.0, 2e-4, 0.25, 0.999999)[(i * 3 + 1 + 4 * dist_kind) % 8] for i in range(n)])
    ad = np.zeros((n, A, L))
    for i in range(n):
        for p in range(L):
            w = np.array([((i + 2) * (a + 3) * (p + 5)) % 7 + (1.0 if dist_kind else 0.0) for a in range(A)], dtype=float)
            if w.sum() == 0:
                w[0] = 1.0
            ad[i, :, p] = w / w.sum()
    return dict(context=ctx, action=np.array(acts), reward=r, pscore=ps, position=None if pos is None else np.array(pos), action_dist=ad)


def exp_weights(method, w, rows, p, A, use_ps):
    if method == "normal":
        return None
    out = []
    for i in rows:
        pi = w["action_dist"][i, w["action"][i], p]
        b = w["pscore"][i] if use_ps else 1.0 / A
        out.append(pi / b if method == "iw" else pi * (1 - b) / b**2)
    return np.array(out)


def run(c, w, A, L, method, k, kind, use_ps, ac, rs):
    from obp.ope import RegressionModel

    n = len(w["action"])
    pos = [0] * n if (w["position"] is None or L == 1) else [int(p) for p in w["position"]]
    if kind == "clf":
        w = dict(w, reward=np.array([(1, 0, 0, 1, 1, 0, 1)[i % 7] for i in range(n)]))
    AC = np.eye(A) if ac is None else ac
    recmodel.reset()
    m = RegressionModel(base_model=recmodel.RecReg() if kind == "reg" else recmodel.RecClf(), n_actions=A, len_list=L, action_context=None if ac is None else ac.copy(), fitting_method=method)
    kw = dict(context=w["context"], action=w["action"], reward=w["reward"], pscore=w["pscore"] if use_ps else None, position=w["position"], action_dist=w["action_dist"] if method != "normal" else None)
    fz = Frozen(*[v for v in kw.values() if v is not None])
    try:
        q = m.fit_predict(n_folds=k, random_state=rs, **kw)
    except ValueError as e:
        # legitimate only if some training set can lack a position
        small = min(pos.count(p) for p in range(L))
        limit = 0 if k == 1 else -(-n // k)
        c.true("No training data" in str(e) and small <= limit, "unexpected rejection: %s" % e)
        return None
    fz.check(c)
    c.step()
    q = np.asarray(q)
    c.same(q.shape, (n, A, L), "shape of the estimated rewards")
    feat = np.concatenate([w["context"], AC[w["action"]]], axis=1)
    for p in range(L):
        folds = {}
        for i in range(n):
            src = None
            for a in range(A):
                v = q[i, a, p]
                x = np.concatenate([w["context"][i], AC[a]])[None]
                if kind == "clf":
                    cand = [s for s in range(len(recmodel.LOG)) if abs((recmodel.code(s, x)[0] / 1000) * 2 - v) < 1e-12]
                    single = [s for s in range(len(recmodel.LOG)) if len(set(recmodel.LOG[s]["y"].tolist())) == 1]
                    if not cand and single and float(v) in (0.0, 1.0):
                        # constant model: all training rewards equal
                        ok = [s for s in single if recmodel.LOG[s]["y"][0] == v and i not in rows_at(w, feat, recmodel.LOG[s])]
                        c.true(bool(ok) or k == 1, "constant prediction %r of round %d not explained by a training set without it" % (v, i))
                        src = "const"
                        continue
                    cand = [s for s in cand if s not in single]
                else:
                    cand = [s for s in range(len(recmodel.LOG)) if abs(recmodel.code(s, x)[0] - v) < 1e-9]
                c.true(len(cand) == 1, "prediction %r for round %d, action %d, position %d comes from no fit at its own features" % (v, i, a, p))
                c.true(src in (None, "const") or src == cand[0], "actions of round %d are predicted by different models" % i)
                src = cand[0]
            if src == "const":
                continue
            lg = recmodel.LOG[src]
            rows = recmodel.rows_of(lg["X"], feat)
            c.true(rows is not None and len(set(rows)) == len(rows), "training features at position %d are not rows of the log: %s" % (p, lg["X"].tolist()))
            c.true(all(pos[j] == p for j in rows), "model for position %d was trained on rounds %s with positions %s" % (p, rows, [pos[j] for j in rows]))
            c.close(lg["y"], w["reward"][rows], "training targets", rtol=1e-13)
            ew = exp_weights(method, w, rows, p, A, use_ps)
            if ew is None:
                c.true(lg["w"] is None or np.allclose(lg["w"], lg["w"][0]), "sample weights with fitting method 'normal'")
            else:
                c.true(lg["w"] is not None, "no sample weights with fitting method %r" % method)
                c.close(lg["w"], ew, "sample weights (%s) of rounds %s" % (method, rows))
            folds[i] = frozenset(rows)
        if len(folds) < n:
            continue
        # a round's fold shows through the rounds of this position only
        here = [i for i in range(n) if pos[i] == p]
        if k == 1:
            c.true(all(folds[i] == frozenset(here) for i in range(n)), "position %d: trained on all its rounds" % p)
        else:
            for i in range(n):
                c.true(i not in folds[i], "round %d is predicted at position %d by a model trained on it" % (i, p))
            if L == 1:
                recmodel.check_folds(c, folds, n, k, "cross-fitting")
            else:
                outs = {}
                for i in range(n):
                    outs.setdefault(frozenset(here) - folds[i], []).append(i)
                union = [j for o in outs for j in o]
                c.same(sorted(union), here, "position %d: held-out rounds partition the log" % p)
                for o, members in outs.items():
                    c.true(set(o) <= set(members), "position %d: rounds %s are held out for %s" % (p, sorted(o), members))
    return q


def rows_at(w, feat, lg):
    return recmodel.rows_of(lg["X"], feat) or []


AC2 = np.array([[0.5, 2.0], [1.5, -1.0], [3.0, 0.25]])


def logs(c, n, A, L, method):
    seeds = (0, 1) if c.tier == "quick" else (0, 1, 2, 3, 7)
    for acts in itertools.product(range(A), repeat=n):
        if n >= 5 and list(acts) != sorted(acts) and acts[0] != 0:
            continue
        plist = [None] if L == 1 else [pp for pp in itertools.product(range(L), repeat=n) if set(pp) == set(range(L))]
        if n >= 4 and L > 1:
            plist = plist[:: max(1, len(plist) // 5)]
        for pos in plist:
            h = sum(a * 3**i for i, a in enumerate(acts)) + (0 if pos is None else sum(p * 2**i for i, p in enumerate(pos)))
            w = world(n, A, L, acts, pos, h % 2)
            for k in range(1, n + 1):
                for j, kind in enumerate(("reg", "clf")):
                    for rs in (seeds if k > 1 else (0,)):
                        use_ps, ac = (h + k) % 3 != 0, AC2[:A] if (h + k + j) % 2 else None
                        with c.case("fit_predict", n=n, A=A, L=L, actions=acts, position=pos, method=method, folds=k, kind=kind, pscore=use_ps, action_context=ac is not None, seed=rs):
                            q = run(c, w, A, L, method, k, kind, use_ps, ac, rs)
                            if q is not None and rs == 1:
                                q2 = run(c, w, A, L, method, k, kind, use_ps, ac, rs)
                                c.same(q2, q, "same seed, same folds")


def positions1(c):
    """len_list=1 ignores given positions; predict on new contexts; refit forgets"""
    from obp.ope import RegressionModel

    for method in ("normal", "iw", "mrdr"):
        for k in (1, 2, 3):
            with c.case("ignored-position", method=method, folds=k):
                w = world(4, 2, 1, (0, 1, 1, 0), (0, 0, 0, 0), 1)
                run(c, w, 2, 1, method, k, "reg", True, None, 0)
                w["position"] = np.array([0, 1, 2, 1])
                run(c, w, 2, 1, method, k, "reg", True, None, 0)
    for L in (1, 2, 3):
        for A in (2, 3):
            with c.case("predict-new", L=L, A=A):
                n = 6
                w = world(n, A, L, [i % A for i in range(n)], [i % L for i in range(n)], 1)
                recmodel.reset()
                m = RegressionModel(base_model=recmodel.RecReg(), n_actions=A, len_list=L)
                for rep in (0, 1):
                    m.fit(context=w["context"], action=w["action"], reward=w["reward"], position=w["position"])
                    base = rep * L
                    for X in (np.array([[9.0, 8.0]]), np.array([[9.0, 8.0], [-3.0, 1.0], [0.5, 0.5]])):
                        fz = Frozen(X)
                        q = np.asarray(m.predict(X))
                        c.step()
                        fz.check(c)
                        c.same(q.shape, (len(X), A, L), "shape")
                        for i in range(len(X)):
                            for a in range(A):
                                for p in range(L):
                                    ex = [recmodel.code(base + s, np.concatenate([X[i], np.eye(A)[a]])[None])[0] for s in range(L)]
                                    src = [s for s in range(L) if abs(ex[s] - q[i, a, p]) < 1e-9]
                                    c.true(len(src) == 1, "prediction for a new round from the latest fit")
                                    rows = recmodel.rows_of(recmodel.LOG[base + src[0]]["X"], np.concatenate([w["context"], np.eye(A)[w["action"]]], axis=1))
                                    c.same(sorted(rows), [j for j in range(n) if j % L == p], "model of position %d" % p)


def real(c, seed):
    """real scikit-learn models against a hand-written cross-fit"""
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.model_selection import KFold

    from obp.ope import RegressionModel

    g = np.random.RandomState(seed)
    for n, A, L, k, method in itertools.product((9, 24, 40), (2, 3), (1, 2), (1, 2, 5), ("normal", "iw", "mrdr")):
        ctx = g.normal(size=(n, 3))
        act = g.randint(A, size=n)
        pos = np.arange(n) % L
        ps = g.uniform(0.2, 0.9, size=n)
        ad = g.uniform(0.1, 1, size=(n, A, L))
        ad /= ad.sum(1, keepdims=True)
        r = (g.uniform(size=n) < 0.5).astype(int)
        r[:4] = [0, 1, 1, 0]
        for name, mk in (("ridge", lambda: Ridge()), ("logit", lambda: LogisticRegression(C=0.5)), ("forest", lambda: RandomForestClassifier(n_estimators=3, random_state=0))):
            if name == "forest" and n > 9:
                continue
            with c.case("sklearn", n=n, A=A, L=L, folds=k, method=method, model=name, seed=seed):
                kw = dict(context=ctx, action=act, reward=r, pscore=ps, position=pos, action_dist=ad)
                from obp.ope import RegressionModel as RM
                exp = np.zeros((n, A, L))
                splits = [(np.arange(n), np.arange(n))] if k == 1 else list(KFold(n_splits=k, shuffle=True, random_state=3).split(ctx))
                bad = False
                for tr, te in splits:
                    for p in range(L):
                        t = tr[pos[tr] == p]
                        if len(t) == 0 or (name != "ridge" and len(set(r[t])) < 2 and name == "logit"):
                            bad = True
                            break
                        X = np.concatenate([ctx[t], np.eye(A)[act[t]]], axis=1)
                        pi = ad[t, act[t], p]
                        sw = None if method == "normal" else (pi / ps[t] if method == "iw" else pi * (1 - ps[t]) / ps[t] ** 2)
                        mod = mk().fit(X, r[t], sample_weight=sw)
                        for a in range(A):
                            Z = np.concatenate([ctx[te], np.tile(np.eye(A)[a], (len(te), 1))], axis=1)
                            exp[te, a, p] = mod.predict(Z) if name == "ridge" else (mod.predict_proba(Z)[:, 1] if len(mod.classes_) == 2 else float(mod.classes_[0]))
                if bad:
                    continue
                got = RM(base_model=mk(), n_actions=A, len_list=L, fitting_method=method).fit_predict(n_folds=k, random_state=3, **kw)
                c.step()
                c.close(got, exp, "cross-fitted rewards", rtol=1e-6, atol=1e-8)


def long(c, n, A, L, k):
    """logs beyond one screenful: many rounds, actions, positions, and tiny propensities"""
    from sklearn.linear_model import Ridge
    from sklearn.model_selection import KFold

    from obp.ope import RegressionModel

    g = np.random.RandomState(n + A + L)
    ctx = g.normal(size=(n, 3)) * np.array([1.0, 10.0, 0.1])
    act = (np.arange(n) * 7 + np.arange(n) // A) % A
    pos = np.arange(n) % L
    ps = 10 ** g.uniform(-5, 0, size=n)
    ad = g.uniform(0.0, 1, size=(n, A, L)) ** 3
    ad /= ad.sum(1, keepdims=True)
    r = g.normal(size=n) + 0.1 * act + ctx[:, 0] + pos
    for method in ("normal", "iw", "mrdr"):
        for ac in (None, g.normal(size=(A, 2))):
            for use_ps in (True, False):
                with c.case("long", n=n, A=A, L=L, folds=k, method=method, action_context=ac is not None, pscore=use_ps):
                    AC = np.eye(A) if ac is None else ac
                    b = ps if use_ps else np.ones(n) / A
                    exp = np.zeros((n, A, L))
                    splits = [(np.arange(n), np.arange(n))] if k == 1 else list(KFold(n_splits=k, shuffle=True, random_state=11).split(ctx))
                    for tr, te in splits:
                        for p in range(L):
                            t = tr[pos[tr] == p]
                            pi = ad[t, act[t], p]
                            sw = None if method == "normal" else (pi / b[t] if method == "iw" else pi * (1 - b[t]) / b[t] ** 2)
                            mod = Ridge(alpha=0.3).fit(np.c_[ctx[t], AC[act[t]]], r[t], sample_weight=sw)
                            for a in range(A):
                                exp[te, a, p] = mod.predict(np.c_[ctx[te], np.tile(AC[a], (len(te), 1))])
                    got = RegressionModel(base_model=Ridge(alpha=0.3), n_actions=A, len_list=L, fitting_method=method, action_context=ac).fit_predict(
                        context=ctx, action=act, reward=r, pscore=ps if use_ps else None, position=pos, action_dist=ad, n_folds=k, random_state=11)
                    c.step()
                    c.close(got, exp, "cross-fitted rewards", rtol=1e-5, atol=1e-7)


def malformed(c):
    from obp.ope import RegressionModel

    w = world(4, 2, 2, (0, 1, 1, 0), (0, 1, 0, 1), 1)
    good = dict(base_model=recmodel.RecReg(), n_actions=2, len_list=2)
    for k, v in [("n_actions", x) for x in (1, 0, 2.0, "2", None)] + [("len_list", x) for x in (0, -1, 1.0, "1", None)] + [("fitting_method", x) for x in ("x", None, 1)] + [("base_model", x) for x in (None, 1, "m", recmodel.RecReg)]:
        with c.case("malformed-init", arg=k, value=repr(v)):
            c.rejects(lambda: RegressionModel(**dict(good, **{k: v})), "%s=%r" % (k, v))
    for method in ("normal", "iw", "mrdr"):
        m = RegressionModel(fitting_method=method, **good)
        with c.case("wellformed", method=method):
            m.fit_predict(n_folds=1, **w)
            m.fit(**w)
        F = [("context", w["context"][0]), ("context", w["context"][:3]), ("context", w["context"].tolist()), ("action", w["action"][:3]), ("action", w["action"].astype(float)), ("action", w["action"] - 1), ("action", w["action"][:, None]),
             ("reward", w["reward"][:3]), ("reward", w["reward"][:, None]), ("reward", None), ("pscore", w["pscore"][:3]), ("pscore", w["pscore"] * 0), ("pscore", -w["pscore"]), ("position", w["position"] + 1), ("position", w["position"][:3]), ("position", w["position"] - 1), ("position", w["position"].astype(float))]
        if method != "normal":
            F += [("action_dist", None), ("action_dist", w["action_dist"][:3]), ("action_dist", w["action_dist"][:, :, 0]), ("action_dist", w["action_dist"][:, :, :1]), ("action_dist", w["action_dist"] * 0.5), ("action_dist", w["action_dist"].tolist())]
        for k, v in F:
            for fn in ("fit", "fit_predict"):
                with c.case("malformed", method=method, arg=k, value=repr(v)[:40], fn=fn):
                    c.rejects(lambda: getattr(m, fn)(**dict(w, **{k: v})), "%s: bad %s" % (fn, k))
        for kf in (0, -1, 1.5, "2", None):
            with c.case("malformed-folds", method=method, folds=repr(kf)):
                c.rejects(lambda: m.fit_predict(n_folds=kf, **w), "n_folds=%r" % (kf,))


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for method in ("normal", "iw", "mrdr"):
        for n, A, L in [(2, 2, 1), (3, 2, 1), (4, 2, 1), (3, 3, 1), (3, 2, 2), (4, 2, 2), (5, 2, 1)] + ([(5, 2, 2), (4, 3, 2), (4, 3, 1), (6, 2, 1), (5, 2, 3)] if deep else []):
            J.append(("logs", (n, A, L, method)))
    J += [("positions1", ()), ("malformed", ())] + [("real", (s,)) for s in (range(4) if deep else range(2))]
    J += [("long", x) for x in [(1500, 3, 1, 3), (6500, 2, 1, 2), (400, 3, 6, 2), (400, 3, 5, 1), (600, 131, 1, 2), (300, 2, 1, 12)] + ([(25000, 2, 2, 3), (3000, 5, 12, 4), (2000, 260, 1, 3)] if deep else [])]
    return J
