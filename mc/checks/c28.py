"""C28: built-in synthetic reward, behaviour and evaluation-policy functions against their formulas."""
import itertools
import math

import numpy as np

from mc.core import Frozen
from mc.rng import BranchRNG, weighted_paths

ID = "C28"
RULE = ("every context matrix over a small value grid is passed through the library's reward, behaviour and policy functions with supplied static or per-round coefficients (including sizes where the number of rounds equals a feature dimension), "
        "every outcome of the random feature selection, and real seeds; values are compared with a scalar evaluation of the documented formula")
BOUNDS = {"quick": "1-6 rounds, 1-3 context dimensions, 2-3 actions, static and per-round coefficients, with and without z-score, all feature subsets of the sparse functions for one feature; kept features solved back for 2, 3 and 5 features over 12 seeds (not exhaustive)", "thorough": "up to 8 rounds, 4 actions"}
ASSUMPTIONS = ["polynomial features are all monomials up to the degree, in scikit-learn order", "z-scores of constant matrices are undefined and excluded"]
GRID = (-1.0, 0.5, 2.0)


def monomials(v, degree):
    """1, x1, .., xd, x1^2, x1x2, ... in graded order"""
    out = []
    for d in range(degree + 1):
        for combo in itertools.combinations_with_replacement(range(len(v)), d):
            out.append(math.prod([v[i] for i in combo]))
    return out


def contexts(n, dim, k):
    return np.array([[GRID[(i * (2 * j + 1) + k * (j + 1) + i // 3) % 3] + 0.125 * i for j in range(dim)] for i in range(n)])


def actions(A, kind):
    if kind == "onehot":
        return np.eye(A)
    return np.array([[0.5, 2.0], [1.5, -1.0], [-0.5, 0.25], [1.0, 1.0]])[:A]


def coef(shape, k):
    n = int(np.prod(shape))
    return np.array([((7 * i + 3 * k + i * i) % 11 - 5) / 4.0 for i in range(n)]).reshape(shape)


def expected(X, Z, degree, cc, ac, mm, ci, ai, z):
    """q(x,a) = x~'M a~ + theta_x'x~ + theta_a'a~, scalar arithmetic; cc/ac/mm may carry a leading round axis"""
    n, A = len(X), len(Z)
    q = np.zeros((n, A))
    for i in range(n):
        xf = [monomials(X[i], degree)[j] for j in ci] if ci is not None else monomials(X[i], degree)
        C = cc[i] if cc.ndim == 2 else cc
        T = ac[i] if ac.ndim == 2 else ac
        M = mm[i] if mm.ndim == 3 else mm
        for a in range(A):
            zf = [monomials(Z[a], degree)[j] for j in ai] if ai is not None else monomials(Z[a], degree)
            s = sum(C[j] * xf[j] for j in range(len(xf))) + sum(T[l] * zf[l] for l in range(len(zf)))
            s += sum(xf[j] * M[j][l] * zf[l] for j in range(len(xf)) for l in range(len(zf)))
            q[i, a] = s
    if z:
        q = (q - q.mean()) / q.std()
    return degree * q


def sig(v):
    return 1 / (1 + np.exp(-v))


def fns():
    from obp import dataset as D

    return {"logistic": (D.logistic_reward_function, 1, 1), "logistic_poly": (D.logistic_polynomial_reward_function, 3, 1), "linear": (D.linear_reward_function, 1, 0), "poly": (D.polynomial_reward_function, 3, 0)}


def reward(c, name, kind, nmax):
    fn, degree, logi = fns()[name]
    for dim, A in itertools.product((1, 2, 3) if degree == 1 else (1, 2), (2, 3)):
        Z = actions(A, kind)
        dz = len(monomials(Z[0], degree))
        dx = len(monomials([0.0] * dim, degree))
        for n in sorted(set(list(range(1, nmax + 1)) + [dz, dx])):
            for k in range(3):
                for per_round in (False, True):
                    for z in (False, True):
                        with c.case("reward", function=name, features=kind, dim=dim, A=A, n=n, k=k, per_round=per_round, z_score=z):
                            X = contexts(n, dim, k)
                            lead = (n,) if per_round else ()
                            cc, ac, mm = coef(lead + (dx,), k), coef(lead + (dz,), k + 1), coef(lead + (dx, dz), k + 2)
                            seen = []

                            def cf(n_rounds, effective_dim_action_context, effective_dim_context, random_, **kw):
                                seen.append((n_rounds, effective_dim_action_context, effective_dim_context))
                                return cc.copy(), ac.copy(), mm.copy()

                            raw = expected(X, Z, degree, cc, ac, mm, None, None, False)
                            if z and raw.std() < 1e-9:
                                continue
                            e = expected(X, Z, degree, cc, ac, mm, None, None, z)
                            fz = Frozen(X, Z)
                            got = fn(context=X, action_context=Z, coef_function=cf, z_score=z, random_state=5)
                            c.step()
                            fz.check(c)
                            c.same(seen, [(n, dz, dx)], "coefficients requested")
                            c.close(got, sig(e) if logi else e, "expected rewards", rtol=1e-7, atol=1e-9)
                            if z:
                                lg = np.log(got / (1 - got)) if logi and (abs(e) < 30).all() else (got if not logi else None)
                                if lg is not None:
                                    c.close(lg.mean(), 0.0, "mean of the z-scores", atol=1e-5)
                                    c.close(lg.std(), float(degree), "spread of the z-scores", rtol=1e-4)


def default_coef(c, name, kind):
    """default coefficients: uniform on [-1, 1], drawn from the seed, in the order context, action, interaction"""
    fn, degree, logi = fns()[name]
    for dim, A, n, seed in itertools.product((1, 2), (2, 3), (1, 2, 4), (0, 1, 12345)):
        with c.case("default-coef", function=name, features=kind, dim=dim, A=A, n=n, seed=seed):
            X, Z = contexts(n, dim, seed % 3), actions(A, kind)
            dz, dx = len(monomials(Z[0], degree)), len(monomials([0.0] * dim, degree))
            r = np.random.RandomState(seed)
            cc, ac = r.uniform(-1, 1, size=dx), r.uniform(-1, 1, size=dz)
            mm = r.uniform(-1, 1, size=(dx, dz))
            e = expected(X, Z, degree, cc, ac, mm, None, None, True)
            c.close(fn(context=X, action_context=Z, random_state=seed), sig(e) if logi else e, "expected rewards", rtol=1e-7, atol=1e-9)
            c.step()


def sparse(c, logi, dim, A):
    """every subset of features the sparse functions may keep"""
    from obp import dataset as D

    fn = D.logistic_sparse_reward_function if logi else D.sparse_reward_function
    Z = np.array([[0.5], [-1.0], [2.0]])[:A]
    dx, dz = len(monomials([0.0] * dim, 4)), 5
    kx, kz = max(int(dx * 0.3), 1), max(int(dz * 0.3), 1)
    for n in (1, 2, 3):
        for z in (False, True):
            X = contexts(n, dim, 1)
            cc, ac, mm = coef((kx,), 1), coef((kz,), 2), coef((kx, kz), 3)
            cands = []
            for ci in itertools.permutations(range(dx), kx):
                for ai in itertools.permutations(range(dz), kz):
                    raw = expected(X, Z, 4, cc, ac, mm, ci, ai, False)
                    if z and raw.std() < 1e-9:
                        cands.append(((ci, ai), None))
                        continue
                    e = expected(X, Z, 4, cc, ac, mm, ci, ai, z)
                    cands.append(((ci, ai), sig(e) if logi else e))
            hit = set()
            rng = BranchRNG()
            seen = []

            def cf(n_rounds, effective_dim_action_context, effective_dim_context, random_, **kw):
                seen.append((effective_dim_action_context, effective_dim_context))
                return cc.copy(), ac.copy(), mm.copy()

            with c.case("sparse", logistic=logi, dim=dim, A=A, n=n, z_score=z):
                tot = 0.0
                for w, got in weighted_paths(rng, lambda: fn(context=X, action_context=Z, coef_function=cf, z_score=z, random_state=rng)):
                    c.step()
                    tot += w
                    if not np.isfinite(got).all():
                        continue
                    m = [k for k, e in cands if e is not None and np.allclose(e, got, rtol=1e-7, atol=1e-9)]
                    c.true(m, "expected rewards %s come from no subset of the features" % got)
                    hit.update(m)
                c.close(tot, 1.0, "probability of all feature subsets")
                c.true(set(seen) == {(kz, kx)}, "number of relevant dimensions %s, expected %s" % (set(seen), (kz, kx)))
                miss = [k for k, e in cands if e is not None and k not in hit]
                c.true(not miss, "feature subsets never selected: %s" % miss[:3])


def sparse_many(c, logi, dim, side):
    """feature sets of larger inputs: the kept features are read back from the values by solving for the coefficients"""
    from obp import dataset as D

    fn = D.logistic_sparse_reward_function if logi else D.sparse_reward_function
    deg = 4
    full = len(monomials([0.0] * dim, deg))
    k = max(int(full * 0.3), 1)
    g = np.random.RandomState(dim)
    many = g.uniform(-1, 1, size=(3 * full + 20, dim))
    few = np.array([[0.5, 1.0], [-1.0, 0.25]])
    kf = max(int(len(monomials([0.0] * 2, deg)) * 0.3), 1)
    F = np.array([monomials(r, deg) for r in many])
    w = np.array([1.0 + (j * 7 % k) / k for j in range(k)])
    used = set()
    for seed in range(12):
        def cf(n_rounds, effective_dim_action_context, effective_dim_context, random_, **kw):
            kx, kz = (k, kf) if side == "context" else (kf, k)
            c.same((int(effective_dim_context), int(effective_dim_action_context)), (kx, kz), "number of relevant dimensions")
            a, b = np.zeros(kx), np.zeros(kz)
            (a if side == "context" else b)[:] = w * (0.01 if logi else 1.0)
            return a, b, np.zeros((kx, kz))

        with c.case("sparse_many", logistic=logi, dim=dim, side=side, seed=seed):
            X, Z = (many, few) if side == "context" else (few, many)
            got = fn(context=X, action_context=Z, coef_function=cf, z_score=False, random_state=seed)
            c.same(got.shape, (len(X), len(Z)), "shape")
            if logi:
                got = np.log(got) - np.log1p(-got)
            got = got / deg / (0.01 if logi else 1.0)
            v = got[:, 0] if side == "context" else got[0]
            sol = np.linalg.lstsq(F, v, rcond=None)[0]
            c.close(F @ sol, v, "values are a combination of the features", rtol=1e-6, atol=1e-6)
            nz = np.flatnonzero(np.abs(sol) > 1e-5)
            c.same(len(nz), k, "number of features the reward depends on")
            c.close(np.sort(sol[nz]), np.sort(w), "each coefficient belongs to one feature", rtol=1e-5, atol=1e-5)
            used.update(nz.tolist())
            c.step()
    with c.case("sparse_many reach", logistic=logi, dim=dim, side=side):
        # 12 draws of 30% of the features: a feature that can be drawn is missed by all with probability 0.7**12
        c.true(len(used) >= 0.8 * full, "only %d of %d features are ever drawn" % (len(used), full))


def ladder(c, name, n, dim, A, scale):
    """large inputs against matrix arithmetic in extended precision"""
    fn, degree, logi = fns()[name]
    with c.case("ladder", function=name, n=n, dim=dim, A=A, scale=scale):
        g = np.random.RandomState(n + dim)
        X = g.normal(size=(n, dim)) * scale
        Z = g.normal(size=(A, 2))
        xf = np.array([monomials(r, degree) for r in X], dtype=np.longdouble)
        zf = np.array([monomials(r, degree) for r in Z], dtype=np.longdouble)
        cc, ac, mm = coef((xf.shape[1],), 1), coef((zf.shape[1],), 2), coef((xf.shape[1], zf.shape[1]), 3)
        raw = (xf @ cc)[:, None] + (zf @ ac)[None, :] + xf @ mm @ zf.T
        for z in (True, False):
            e = degree * ((raw - raw.mean()) / raw.std() if z else raw)
            e = e.astype(float)
            got = fn(context=X, action_context=Z, coef_function=lambda **kw: (cc.copy(), ac.copy(), mm.copy()), z_score=z, random_state=5)
            c.step()
            with np.errstate(over="ignore"):
                c.close(got, 1 / (1 + np.exp(-e)) if logi else e, "expected rewards", rtol=1e-6, atol=1e-9 * max(1.0, float(np.abs(e).max())) if not logi else 1e-9)


def behaviour(c):
    from obp import dataset as D

    for name, fn, degree in (("linear", D.linear_behavior_policy, 1), ("polynomial", D.polynomial_behavior_policy, 3)):
        for dim, A, n, seed, kind, mag in itertools.product((1, 2), (2, 3), (1, 2, 3, 5), (0, 1, 12345), ("onehot", "dense"), ((1.0, 1.0), (64.0, 1.0), (1.0, 64.0), (1.0 / 64, 1.0 / 64))):
            with c.case("behaviour", function=name, dim=dim, A=A, n=n, seed=seed, features=kind, magnitude=mag):
                X, Z = contexts(n, dim, seed % 3) * mag[0], actions(A, kind) * mag[1]
                dz, dx = len(monomials(Z[0], degree)), len(monomials([0.0] * dim, degree))
                r = np.random.RandomState(seed)
                ac = r.uniform(size=dz)
                mm = r.uniform(size=(dx, dz))
                e = expected(X, Z, degree, np.zeros(dx), ac, mm, None, None, True)
                fz = Frozen(X, Z)
                c.close(fn(context=X, action_context=Z, random_state=seed), e, "logits", rtol=1e-7, atol=1e-9)
                fz.check(c)
                c.step()


def continuous(c):
    from obp import dataset as D

    for dim, n, seed, k in itertools.product((1, 2, 3), (1, 2, 4), (0, 1, 12345), range(3)):
        X = contexts(n, dim, k)
        for av in itertools.product((-1.0, 0.0, 0.7), repeat=min(n, 3)):
            a = np.array([av[i % len(av)] for i in range(n)])
            with c.case("continuous-reward", dim=dim, n=n, seed=seed, k=k, actions=a):
                r = np.random.RandomState(seed)
                cf = r.normal(size=dim)
                p, b = r.uniform(size=2)
                e = [abs(sum(X[i, j] * cf[j] for j in range(dim)) - a[i]) ** p + b for i in range(n)]
                fz = Frozen(X, a)
                c.close(D.linear_reward_funcion_continuous(context=X, action=a, random_state=seed), e, "linear reward", rtol=1e-8)
                r = np.random.RandomState(seed)
                c1, c2, c3 = r.normal(size=dim), r.normal(size=dim), r.normal(size=dim)
                ca = r.normal(size=1)[0]
                dot = lambda v, i: sum(X[i, j] * v[j] for j in range(dim))
                e = [ca * a[i] * dot(c1, i) + dot(c2, i) * a[i] + (a[i] - dot(c3, i)) ** 2 for i in range(n)]
                c.close(D.quadratic_reward_funcion_continuous(context=X, action=a, random_state=seed), e, "quadratic reward", rtol=1e-8)
                fz.check(c)
                c.step(2)
        with c.case("continuous-policies", dim=dim, n=n, seed=seed, k=k):
            r = np.random.RandomState(seed)
            cf = r.normal(size=dim)
            b = r.uniform(size=1)[0]
            c.close(D.linear_behavior_policy_continuous(context=X, random_state=seed), [sum(X[i, j] * cf[j] for j in range(dim)) + b for i in range(n)], "behaviour", rtol=1e-8)
            m = [sum(X[i]) / dim for i in range(n)]
            c.close(D.linear_synthetic_policy_continuous(X), m, "linear policy")
            c.close(D.threshold_synthetic_policy_continuous(X), [0.0 if v < 1.5 else (2.0 if v > 1.5 else 1.0) for v in m], "threshold policy")
            c.close(D.sign_synthetic_policy_continuous(X), [math.sin(v) for v in m], "sign policy")
            c.step(4)
    for d in (1e-12, 1e-9, 1e-7, 1e-3, 0.25, 40.0, 1e6):
        with c.case("threshold", distance=d):
            v = np.array([1.5 - d, 1.5 + d, 1.5, -d, d, 0.0])
            for X in (v[:, None], np.c_[v * 2, v * 0], np.c_[v, v, v, v]):
                m = [math.fsum(r) / len(r) for r in X]
                ok = np.array([abs(t - 1.5) > 1e-13 or t == 1.5 for t in m])
                c.close(D.threshold_synthetic_policy_continuous(X)[ok], np.array([0.0 if t < 1.5 else (2.0 if t > 1.5 else 1.0) for t in m])[ok], "threshold policy")
                c.close(D.linear_synthetic_policy_continuous(X), m, "linear policy")
                c.close(D.sign_synthetic_policy_continuous(X), [math.sin(t) for t in m], "sign policy", atol=1e-7)
                c.step(3)
    from obp.dataset import synthetic_slate as SL

    for dist in (0, 1, 2, 5, 11, 12, 13, 30, 200):
        with c.case("decay", distance=dist):
            c.close(SL.exponential_decay_function(np.array([dist, 1.0])), [math.exp(-dist), math.exp(-1)], "exponential decay", rtol=1e-12, atol=0)
            c.close(SL.inverse_decay_function(np.array([dist, 1.0])), [1 / (1.0 + dist), 0.5], "inverse decay", rtol=1e-12, atol=0)
            c.step(2)
    X = contexts(3, 2, 0)
    for fn in (D.linear_reward_funcion_continuous, D.quadratic_reward_funcion_continuous):
        for ctx, a in ((X, np.zeros(2)), (X[0], np.zeros(3)), (X, np.zeros((3, 1))), (None, np.zeros(3)), (X, None)):
            with c.case("reject", function=fn.__name__, context=ctx, action=a):
                c.rejects(lambda: fn(context=ctx, action=a, random_state=1), "shapes")
    for fn in (D.linear_behavior_policy_continuous, D.linear_synthetic_policy_continuous, D.threshold_synthetic_policy_continuous, D.sign_synthetic_policy_continuous):
        for ctx in (X[0], None, X[None], X.tolist()):
            with c.case("reject", function=fn.__name__, context=ctx):
                c.rejects(lambda: fn(context=ctx), "context")
    for fn in (D.logistic_reward_function, D.logistic_polynomial_reward_function, D.logistic_sparse_reward_function, D.linear_reward_function, D.polynomial_reward_function, D.sparse_reward_function, D.linear_behavior_policy, D.polynomial_behavior_policy):
        for ctx, z in ((X[0], np.eye(2)), (X, np.ones(2)), (None, np.eye(2)), (X, None), (X[None], np.eye(2))):
            with c.case("reject", function=fn.__name__, context=ctx, action_context=z):
                c.rejects(lambda: fn(context=ctx, action_context=z, random_state=1), "shapes")


def jobs(tier):
    q = tier == "quick"
    out = [("behaviour", ()), ("continuous", ())]
    for name in ("logistic", "logistic_poly", "linear", "poly"):
        for kind in ("onehot", "dense"):
            out += [("reward", (name, kind, 5 if q else 8)), ("default_coef", (name, kind))]
    for name in ("logistic", "logistic_poly", "linear", "poly"):
        out += [("ladder", (name,) + x) for x in ((300, 6, 5, 1.0), (1500, 3, 4, 1.0), (40, 4, 40, 1.0), (20, 2, 3, 5.0), (20, 2, 3, 1e-4), (7000, 2, 2, 1.0))]
    for logi in (False, True):
        for dim, A in ((1, 2), (1, 3)):
            out.append(("sparse", (logi, dim, A)))
        for dim in (2, 3, 5):
            for side in ("context", "action"):
                out.append(("sparse_many", (logi, dim, side)))
    return out
