"""C12: linear bandit policies in every history of updates / selections / re-initialisations."""
import copy
import itertools

import numpy as np

from mc.rng import PathRNG, all_paths
from mc.checks.c11 import check_list, check_top, check_uniform

ID = "C12"
RULE = ("all sequences of update(a, r, x) / initialize up to the depth over a finite alphabet of contexts, actions and rewards; after every operation the policy is queried with every probe context, "
        "and its choices, posterior parameters and maintained inverse are compared with a batch ridge regression (solved directly) on the accepted observations")
BOUNDS = {"quick": "dim 2, 2 actions: depth 3 over 12 updates + initialize, depth 5 over 4 updates; dim 3, 3 actions: depth 2 over 12; batch sizes 1-3; 3 policies; ladder of histories of 120 rounds, dim 6, 8 actions",
          "thorough": "one level deeper"}
ASSUMPTIONS = ["ties between equal scores (1e-9) may be broken either way"]


class Ref:
    def __init__(self, dim, A, batch):
        self.dim, self.A, self.batch, self.obs = dim, A, batch, []

    def acc(self):
        return self.obs[: len(self.obs) // self.batch * self.batch]

    def ridge(self):
        inv, th = [], []
        for a in range(self.A):
            M, b = np.identity(self.dim), np.zeros(self.dim)
            for aa, r, x in self.acc():
                if aa == a:
                    v = np.array(x, dtype=float)
                    M += np.outer(v, v)
                    b += r * v
            inv.append(np.linalg.inv(M))
            th.append(np.linalg.solve(M, b))
        return inv, th


def build(kind, dim, A, L, batch, rs=None):
    from obp import policy as P

    kw = dict(dim=dim, n_actions=A, len_list=L, batch_size=batch, random_state=PathRNG() if rs is None else rs)
    if kind.startswith("eg"):
        return P.LinEpsilonGreedy(epsilon=float(kind[2:]), **kw)
    if kind.startswith("ucb"):
        return P.LinUCB(epsilon=float(kind[3:]), **kw)
    return P.LinTS(**kw)


def check_state(c, kind, p, ref, L, probes, full, rtol=1e-7):
    A, dim = ref.A, ref.dim
    rng = p.random_state
    inv, th = ref.ridge()
    c.same(int(p.n_trial), len(ref.obs), "n_trial")
    c.close(np.array(p.A_inv), np.array(inv), "maintained inverse", rtol=1e-7, atol=1e-9)
    for x in probes:
        v = np.array(x, dtype=float)
        ctx = v.reshape(1, -1)
        sc = max(float(np.abs(t) @ np.abs(v)) for t in th)
        if kind.startswith("eg"):
            eps = float(kind[2:])
            if eps < 1:
                rng.program(u=eps + 1e-6)
                got = check_list(c, p.select_action(context=ctx), A, L, "select")
                check_top(c, got, [float(t @ v) for t in th], "greedy at %s" % (x,), scale=sc)
                c.step()
            if eps > 0:
                rng.program(u=eps - 1e-6)
                if full:
                    check_uniform(c, rng, lambda: p.select_action(context=ctx), A, L, "explore")
                else:
                    check_list(c, p.select_action(context=ctx), A, L, "select")
        elif kind.startswith("ucb"):
            eps = float(kind[3:])
            got = check_list(c, p.select_action(context=ctx), A, L, "select")
            check_top(c, got, [float(t @ v) + eps * float(np.sqrt(v @ m @ v)) for t, m in zip(th, inv)], "ucb at %s" % (x,), scale=sc)
            c.step()
        else:
            for shift in range(A if full else 1):
                vals = [((i * 3 + shift * 2) % (A * dim + 1)) - 1.5 for i in range(A * dim)]
                rng.program(values=vals)
                got = check_list(c, p.select_action(context=ctx), A, L, "select")
                c.true(len(rng.calls) == A, "expected one posterior draw per action, saw %d" % len(rng.calls))
                for a in range(A):
                    k, mean, cov = rng.calls[a]
                    c.close(mean, th[a], "posterior mean of action %d" % a, rtol=rtol, atol=rtol / 100)
                    c.close(cov, inv[a], "posterior covariance of action %d" % a, rtol=1e-7, atol=1e-9)
                check_top(c, got, [float(np.array(vals[a * dim:(a + 1) * dim]) @ v) for a in range(A)], "sampled scores at %s" % (x,), scale=max(abs(z) for z in vals) * float(np.abs(v).sum()))
                c.step()


def explore(c, kind, dim, A, L, batch, depth, xs, rewards, first):
    probes = [(1.0, 0.0), (0.0, 1.0), (1.0, -1.0), (0.5, 2.0), (-1.0, 0.25)] if dim == 2 else [tuple(float(x) for x in r) for r in ((1, 0, 0), (0, 1, -1), (-1, 0.5, 2), (0.25, -2, 1))]
    ops = [("u", a, r, x) for a in range(A) for r in rewards for x in xs] + [("init",)]
    dt = [float, np.float32, int]

    def apply(p, ref, op, i):
        if op[0] == "u":
            ctx = np.array(op[3], dtype=float).reshape(1, -1)
            before = ctx.copy()
            p.update_params(action=op[1], reward=op[2], context=ctx)
            c.same(ctx, before, "context after update")
            ref.obs = ref.obs + [(op[1], op[2], op[3])]
        else:
            p.initialize()
            ref.obs = []
        c.step()

    def rec(p, ref, hist, d):
        full = c.state((kind, dim, A, L, batch, sorted(ref.acc()), sorted(ref.obs[len(ref.acc()):])))
        with c.case("history", _state=False, kind=kind, dim=dim, A=A, L=L, batch=batch, history=hist):
            check_state(c, kind, p, ref, L, probes, full and d > 0)
        if d == 0:
            return
        for i, op in enumerate(ops):
            if not hist and i % 4 != first:
                continue
            p2, r2 = copy.deepcopy(p), copy.copy(ref)
            with c.case("op", _state=False, kind=kind, history=hist + [op], batch=batch):
                apply(p2, r2, op, i)
            rec(p2, r2, hist + [op], d - 1)

    rec(build(kind, dim, A, L, batch), Ref(dim, A, batch), [], depth)


def ladder(c, kind, dim, A, L, batch, T, mag=1.0, rmag=1.0, rtol=1e-7):
    every = max(7, T // 25)
    p, ref = build(kind, dim, A, L, batch), Ref(dim, A, batch)
    q, rq = build(kind, dim, A, L, batch + 1), Ref(dim, A, batch + 1)
    for rnd in range(2):
        for t in range(T):
            x = tuple(mag * (((t * (k + 3) + k * k + rnd) % 7) / 2.0 - 1.5) for k in range(dim))
            a, r = (t * 5 + t // 4 + rnd) % A, rmag * (((t * 3 + rnd) % 5) / 2.0 - 1.0)
            with c.case("long", kind=kind, dim=dim, A=A, L=L, batch=batch, t=t, round=rnd):
                p.update_params(action=a, reward=r, context=np.array([x]))
                ref.obs.append((a, r, x))
                if t % 3 == 1:
                    q.update_params(action=(a + 1) % A, reward=-r, context=np.array([x]) * 2)
                    rq.obs.append(((a + 1) % A, -r, tuple(2 * z for z in x)))
                c.step(2)
                if t % every == 0 or t == T - 1:
                    for pp, rr in ((p, ref), (q, rq)):
                        check_state(c, kind, pp, rr, L, [tuple(float((k + t) % 3) - 1 for k in range(dim)), x], False, rtol)
        with c.case("re-init", kind=kind, dim=dim, A=A, L=L, batch=batch, round=rnd):
            p.initialize()
            ref.obs = []
            check_state(c, kind, p, ref, L, [(1.0,) * dim], False)


def seeded(c, kind, dim, A, L, batch):
    for seed in (0, 7):
        with c.case("seeded", kind=kind, dim=dim, A=A, L=L, batch=batch, seed=seed):
            def play(p, T=10):
                out = []
                for t in range(T):
                    x = np.array([[((t * 3 + k) % 5) - 2.0 for k in range(dim)]])
                    v = p.select_action(context=x)
                    out.append(tuple(int(y) for y in v))
                    p.update_params(action=int(v[0]), reward=float(t % 2), context=x)
                return out

            p = build(kind, dim, A, L, batch, seed)
            a = play(p)
            c.same(play(build(kind, dim, A, L, batch, seed)), a, "same seed")
            p.initialize()
            c.same(play(p), a, "after re-initialising")
            c.step(30)


def preload():
    import obp.policy  # noqa: F401


def jobs(tier):
    th = tier == "thorough"
    out = []
    X2 = [(1.0, 0.0), (0.5, -2.0), (1.0, 1.0)]
    X3 = [(1.0, 0.0, 2.0), (0.0, -1.0, 1.0)]
    for kind in ("eg0.0", "eg0.25", "ucb0.0", "ucb1.5", "ts"):
        for batch in (1, 2, 3):
            for first in range(4):
                d = 3 if kind in ("eg0.0", "ucb0.0") else 3
                out.append(("explore", (kind, 2, 2, 1 if batch != 2 else 2, batch, d + th, X2, (1.0, -0.5), first)))
                out.append(("explore", (kind, 3, 3, 2, batch, 2 + th, X3, (1.0, 0.5), first)))
                if batch < 3:
                    out.append(("explore", (kind, 2, 2, 1, batch, 5 + th, X2[1:], (1.0,), first)))
    for kind in ("eg0.0", "eg1.0", "ucb0.5", "ucb64.0", "ts"):
        for dim, A, L, batch, T in ((1, 2, 1, 1, 40), (2, 3, 2, 4, 80), (6, 8, 3, 7, 120), (4, 5, 5, 1, 100)):
            out.append(("ladder", (kind, dim, A, L, batch, T)))
        for x in ((3, 3, 2, 1, 1100), (24, 3, 1, 5, 150), (2, 40, 5, 3, 400), (3, 3, 1, 64, 300), (2, 3, 1, 2, 80, 64.0), (2, 3, 1, 2, 80, 1.0 / 64), (2, 3, 1, 2, 80, 1.0, 1024.0), (2, 3, 2, 1, 80, 1.0, 1.0 / 1024), (2, 3, 2, 1, 80, 1.0, 2.0 ** -20), (2, 3, 2, 1, 80, 1.0, 2.0 ** 20), (2, 3, 1, 1, 60, 0.3, 0.7, 2e-9)):
            out.append(("ladder", (kind,) + x))
        for dim, A, L, batch in ((2, 2, 1, 1), (3, 4, 2, 3)):
            out.append(("seeded", (kind, dim, A, L, batch)))
    return out
