"""C13: logistic bandit policies in every history of updates / selections / re-initialisations."""
import copy

import numpy as np

from mc.rng import WorldRNG
from mc.checks.c11 import check_list, check_top, check_uniform

ID = "C13"
RULE = ("all sequences of update(a, r, x) / initialize up to the depth; at every batch boundary each arm's posterior (read through the public model interface) must be the Laplace update of its previous posterior on exactly the "
        "arm's own new observations (independent Newton solver); between boundaries it must not move; every choice is compared with the documented score")
BOUNDS = {"quick": "dim 2, 2 actions: depth 4 over 8 updates + initialize (depth 5 over 4 updates); dim 3, 3 actions: depth 3 over 12; batch sizes 1-3; ladders of 60 rounds", "thorough": "one level deeper"}
ASSUMPTIONS = ["the optimiser is trusted to 2e-3 in the coefficients (L-BFGS-B, at most 20 iterations)", "ties may be broken either way"]


def sig(z):
    return 1.0 / (1.0 + np.exp(-z)) if z >= 0 else np.exp(z) / (1.0 + np.exp(z))


def newton(m, q, X, y):
    w = m.copy()
    X, y = np.array(X, dtype=float), np.array(y, dtype=float)

    def loss(w):
        z = X @ w
        return 0.5 * float(q @ (w - m) ** 2) + float((np.logaddexp(0, z) - y * z).sum())

    for _ in range(100):
        p = np.array([sig(z) for z in X @ w])
        g = q * (w - m) + X.T @ (p - y)
        H = np.diag(q) + (X.T * (p * (1 - p))) @ X
        d = np.linalg.solve(H, g)
        t = 1.0
        while loss(w - t * d) > loss(w) + 1e-15 and t > 1e-8:
            t /= 2
        w = w - t * d
        if np.abs(t * d).max() < 1e-13:
            break
    p = np.array([sig(z) for z in X @ w])
    return w, p


def read(model, dim, alpha):
    """(mean, precision) through predict_proba on unit vectors and sd()"""
    pr = np.array([float(np.ravel(model.predict_proba(np.eye(dim)[i:i + 1]))[0]) for i in range(dim)])
    m = np.log(pr / (1 - pr))
    return m, (alpha / np.array(model.sd(), dtype=float)) ** 2


class Ref:
    def __init__(self, dim, A, batch, lam, alpha):
        self.dim, self.A, self.batch, self.lam, self.alpha = dim, A, batch, lam, alpha
        self.reset()

    def reset(self):
        self.n = 0
        self.pend = [[] for _ in range(self.A)]
        self.m = [np.zeros(self.dim) for _ in range(self.A)]
        self.q = [np.full(self.dim, float(self.lam)) for _ in range(self.A)]

    def clone(self):
        r = copy.copy(self)
        r.pend = [list(x) for x in self.pend]
        r.m, r.q = list(self.m), list(self.q)
        return r

    def update(self, c, p, a, r, x):
        """advance; on a boundary compare each arm with the Laplace update, then adopt the real state"""
        self.n += 1
        self.pend[a].append((r, x))
        boundary = self.n % self.batch == 0
        for k in range(self.A):
            m, q = read(p.model_list[k], self.dim, self.alpha)
            if boundary and self.pend[k]:
                X = np.array([z for _, z in self.pend[k]], dtype=float)
                w, _ = newton(self.m[k], self.q[k], X, [y for y, _ in self.pend[k]])
                c.close(m, w, "posterior mean of arm %d" % k, rtol=0, atol=2e-3)
                pr = np.array([sig(z) for z in X @ m])
                c.close(q, self.q[k] + (pr * (1 - pr)) @ X ** 2, "posterior precision of arm %d" % k, rtol=1e-6, atol=1e-9)
            else:
                c.close(m, self.m[k], "posterior mean of arm %d (no new batch)" % k, rtol=1e-9, atol=1e-9)
                c.close(q, self.q[k], "posterior precision of arm %d (no new batch)" % k, rtol=1e-9, atol=1e-9)
            self.m[k], self.q[k] = m, q
        if boundary:
            self.pend = [[] for _ in range(self.A)]


def build(kind, dim, A, L, batch, lam, alpha, rs=None):
    from obp import policy as P

    kw = dict(dim=dim, n_actions=A, len_list=L, batch_size=batch, random_state=WorldRNG() if rs is None else rs, alpha_=float(alpha), lambda_=float(lam))
    if kind.startswith("eg"):
        return P.LogisticEpsilonGreedy(epsilon=float(kind[2:]), **kw)
    if kind.startswith("ucb"):
        return P.LogisticUCB(epsilon=float(kind[3:]), **kw)
    return P.LogisticTS(**kw)


def check_state(c, kind, p, ref, L, probes, full):
    A, dim = ref.A, ref.dim
    rng = p.random_state
    c.same(int(p.n_trial), ref.n, "n_trial")
    for k in range(A):
        m, q = read(p.model_list[k], dim, ref.alpha)
        c.close(m, ref.m[k], "mean of arm %d" % k, atol=1e-9)
        c.close(q, ref.q[k], "precision of arm %d" % k)
    for x in probes:
        v = np.array(x, dtype=float)
        ctx = v.reshape(1, -1)
        if kind.startswith("eg"):
            eps = float(kind[2:])
            if eps < 1:
                rng.program(u=eps + 1e-6)
                got = check_list(c, p.select_action(context=ctx), A, L, "select")
                check_top(c, got, [sig(float(m @ v)) for m in ref.m], "greedy at %s" % (x,), scale=1.0)
                c.step()
            if eps > 0:
                rng.program(u=eps - 1e-6)
                if full:
                    check_uniform(c, rng, lambda: p.select_action(context=ctx), A, L, "explore")
                else:
                    check_list(c, p.select_action(context=ctx), A, L, "select")
        elif kind.startswith("ucb"):
            eps = float(kind[3:])
            got = check_list(c, p.select_action(context=ctx), A, L, "select")
            check_top(c, got, [sig(float(m @ v)) + eps * float(np.sqrt((v ** 2 / q).sum())) for m, q in zip(ref.m, ref.q)], "ucb at %s" % (x,), scale=1.0)
            c.step()
        else:
            vals = [((i * 3 + len(ref.pend[0])) % (A * dim + 1)) / 4.0 - 1.0 for i in range(A * dim)]
            rng.program(values=vals)
            got = check_list(c, p.select_action(context=ctx), A, L, "select")
            # a standard draw z becomes mean + alpha * q^-1/2 * z, however the generator is asked for it
            sd = [ref.alpha * q ** -0.5 for q in ref.q]
            theta = [m + s_ * np.array(vals[a * dim:(a + 1) * dim]) for a, (m, s_) in enumerate(zip(ref.m, sd))]
            check_top(c, got, [sig(float(t @ v)) for t in theta], "sampled scores at %s" % (x,), scale=1.0)
            if all(getattr(m, "random_state", None) is rng and hasattr(m, "predict_proba_with_sampling") for m in p.model_list):
                rng.program(values=vals)
                drawn = np.array([p.model_list[a].predict_proba_with_sampling(ctx)[0] for a in range(A)], dtype=float).ravel()
                c.close(drawn, [sig(float(t @ v)) for t in theta], "sampled probabilities at %s" % (x,), rtol=1e-9)
            c.step()


def explore(c, kind, dim, A, L, batch, depth, xs, lam, alpha, first):
    probes = [(1.0, 0.0), (0.0, 1.0), (1.0, -1.0), (-1.0, 0.25)] if dim == 2 else [(1.0, 0.0, 0.0), (0.0, 1.0, -1.0), (-1.0, 0.5, 2.0)]
    ops = [("u", a, r, x) for a in range(A) for r in (1.0, 0.0) for x in xs] + [("init",)]

    def rec(p, ref, hist, d):
        c.state((kind, dim, A, L, batch, [x.tobytes() for x in ref.m], ref.pend))
        with c.case("history", _state=False, kind=kind, dim=dim, A=A, L=L, batch=batch, lam=lam, alpha=alpha, history=hist):
            check_state(c, kind, p, ref, L, probes, d > 1)
        if d == 0:
            return
        for i, op in enumerate(ops):
            if not hist and i % 4 != first:
                continue
            p2, r2 = copy.deepcopy(p), ref.clone()
            with c.case("op", _state=False, kind=kind, history=hist + [op], batch=batch, lam=lam, alpha=alpha):
                if op[0] == "u":
                    ctx = np.array([op[3]], dtype=float)
                    p2.update_params(action=op[1], reward=op[2], context=ctx)
                    r2.update(c, p2, op[1], op[2], op[3])
                else:
                    p2.initialize()
                    r2.reset()
                c.step()
            rec(p2, r2, hist + [op], d - 1)

    rec(build(kind, dim, A, L, batch, lam, alpha), Ref(dim, A, batch, lam, alpha), [], depth)


def ladder(c, kind, dim, A, L, batch, T, lam, alpha, mag=1.0):
    mk = lambda b: (build(kind, dim, A, L, b, lam, alpha), Ref(dim, A, b, lam, alpha))
    (p, rp), (q, rq) = mk(batch), mk(batch + 1)
    for rnd in range(2):
        for t in range(T):
            x = tuple(mag * (((t * (k + 3) + k * k + rnd) % 7) / 3.0 - 1.0) for k in range(dim))
            a, r = (t * 5 + t // 4 + rnd) % A, float((t * 3 + rnd + t // 2) % 3 == 0)
            with c.case("long", kind=kind, dim=dim, A=A, L=L, batch=batch, t=t, round=rnd):
                p.update_params(action=a, reward=r, context=np.array([x]))
                rp.update(c, p, a, r, x)
                if t % 3 == 1:
                    q.update_params(action=(a + 1) % A, reward=1 - r, context=-np.array([x]))
                    rq.update(c, q, (a + 1) % A, 1 - r, tuple(-z for z in x))
                for pp, rr in ((p, rp), (q, rq)):
                    check_state(c, kind, pp, rr, L, [x, tuple(4 * z for z in x[::-1])], False)
                c.step(2)
        with c.case("re-init", kind=kind, dim=dim, A=A, L=L, batch=batch, round=rnd):
            p.initialize()
            rp.reset()
            check_state(c, kind, p, rp, L, [(1.0,) * dim], False)


def seeded(c, kind, dim, A, L, batch):
    for seed in (0, 7):
        with c.case("seeded", kind=kind, dim=dim, A=A, L=L, batch=batch, seed=seed):
            def play(p, T=8):
                out = []
                for t in range(T):
                    x = np.array([[((t * 3 + k) % 5) / 2.0 - 1.0 for k in range(dim)]])
                    v = p.select_action(context=x)
                    out.append(tuple(int(y) for y in v))
                    p.update_params(action=int(v[0]), reward=float(t % 2), context=x)
                return out

            p = build(kind, dim, A, L, batch, 1.0, 1.0, seed)
            a = play(p)
            c.same(play(build(kind, dim, A, L, batch, 1.0, 1.0, seed)), a, "same seed")
            p.initialize()
            c.same(play(p), a, "after re-initialising")
            if kind == "ts":
                # exchangeable arms: a fresh policy must be able to rank every arm first (chance of a miss below 1e-12)
                p = build(kind, dim, A, L, batch, 1.0, 1.0, seed)
                x = np.ones((1, dim))
                first = {int(p.select_action(context=x)[0]) for _ in range(150)}
                c.same(first, set(range(A)), "arms ranked first by a fresh seeded policy")
            c.step(24)


def preload():
    import obp.policy  # noqa: F401


def jobs(tier):
    th = 2 if tier == "thorough" else 1
    out = []
    X2 = [(1.0, 0.0), (0.5, -2.0)]
    X3 = [(1.0, 0.0, 2.0), (0.0, -1.0, 1.0)]
    for kind in ("eg0.0", "eg0.25", "ucb1.5", "ts"):
        for batch in (1, 2, 3):
            lam, alpha = {1: (1.0, 1.0), 2: (0.5, 2.0), 3: (2.0, 0.25)}[batch]
            for first in range(4):
                out.append(("explore", (kind, 2, 2, 1 if batch != 2 else 2, batch, 3 + th, X2, lam, alpha, first)))
                if kind in ("eg0.0", "ts"):
                    out.append(("explore", (kind, 3, 3, 2, batch, 2 + th, X3, lam, alpha, first)))
                    out.append(("explore", (kind, 2, 2, 1, batch, 4 + th, X2[1:], lam, alpha, first)))
    for kind in ("eg0.0", "ucb0.5", "ucb64.0", "ts"):
        for dim, A, L, batch, T in ((1, 2, 1, 1, 30), (2, 3, 2, 4, 40), (5, 4, 3, 7, 60), (2, 2, 1, 90, 190), (3, 3, 2, 130, 270), (1, 2, 1, 1, 130), (2, 30, 6, 2, 90), (12, 2, 1, 5, 60), (2, 7, 1, 8, 56), (3, 12, 2, 20, 80)):
            out.append(("ladder", (kind, dim, A, L, batch, T, 1.0, 0.5)))
        for lam, alpha, mag in ((1.0, 1.0, 8.0), (0.125, 1.0, 4.0), (16.0, 8.0, 2.0), (1.0, 0.0625, 0.125), (1.0 / 256, 1.0, 32.0)):
            for batch in (1, 6):
                out.append(("ladder", (kind, 2, 3, 1, batch, 45, lam, alpha, mag)))
        for dim, A, L, batch in ((2, 2, 1, 1), (3, 4, 2, 3)):
            out.append(("seeded", (kind, dim, A, L, batch)))
    return out
