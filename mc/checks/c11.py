"""C11: context-free policies in every history of updates / selections / re-initialisations."""
import copy
import itertools

import numpy as np

from mc.rng import PathRNG, all_paths

ID = "C11"
RULE = ("all sequences of update(a, r) / initialize up to the depth, from every reached state all selections: exploration outcomes are enumerated as choice points of the random source (exact probabilities), "
        "exploitation and posterior draws are programmed; the real policy object is compared with a reference automaton holding the list of accepted observations")
BOUNDS = {"quick": "2 actions depth 6, 3 actions depth 4 (after an all-arms prefix depth 3), batch sizes 1-3, len_list 1..n, epsilon {0,.25,1}; ladder of long histories with up to 20 actions",
          "thorough": "depth 7 / 5 (prefix depth 4)"}
ASSUMPTIONS = ["ties between equal scores may be broken either way"]


class Ref:
    def __init__(self, A, batch):
        self.A, self.batch = A, batch
        self.reset()

    def reset(self):
        self.obs = []

    def acc(self):
        return self.obs[: len(self.obs) // self.batch * self.batch]

    def stats(self):
        n, s = [0] * self.A, [0.0] * self.A
        for a, r in self.acc():
            n[a] += 1
            s[a] += r
        return n, s


def check_list(c, got, A, L, what):
    g = np.asarray(got)
    c.true(g.shape == (L,), "%s: shape %s" % (what, g.shape))
    c.true(np.issubdtype(g.dtype, np.integer), "%s: dtype %s" % (what, g.dtype))
    v = [int(x) for x in g]
    c.true(len(set(v)) == L and all(0 <= x < A for x in v), "%s: %s is not a list of distinct actions" % (what, v))
    return v


def check_top(c, v, scores, what, tol=1e-9, scale=0.0):
    """scale: magnitude of the terms the scores are sums of (cancellation leaves rounding of that size)"""
    L = len(v)
    top = sorted(scores, reverse=True)[:L]
    got = [scores[a] for a in v]
    c.true(all(abs(g - t) <= tol * max(scale, max(abs(x) for x in scores)) for g, t in zip(got, top)), "%s: chose %s with scores %s, best are %s" % (what, v, got, top))


def check_uniform(c, rng, sel, A, L, what):
    from fractions import Fraction

    dist = {}
    for p, v in all_paths(rng, sel):
        t = tuple(check_list(c, v, A, L, what))
        dist[t] = dist.get(t, 0) + p
        c.step()
    perms = list(itertools.permutations(range(A), L))
    exp = Fraction(1, len(perms))
    c.true(set(dist) == set(perms) and all(x == exp for x in dist.values()), "%s: exploration is not uniform over lists: %s" % (what, {k: str(x) for k, x in dist.items()}))
    c.outcome((what, len(dist)))


def check_state(c, kind, p, ref, A, L, eps, full):
    rng = p.random_state
    c.same(int(p.n_trial), len(ref.obs), "n_trial")
    n, s = ref.stats()
    c.same([int(x) for x in p.action_counts], n, "action_counts")
    if kind in ("eg", "random"):
        lo, hi = (eps - 1e-6, eps + 1e-6)
        us = [u for u in ((lo, hi, 0.999999) if full else (lo, hi)) if 0 < u < 1]
        if eps in (0.0, 1.0):
            us += [0.25]
        for u in us:
            rng.program(u=u)
            if u > eps and min(n) > 0:
                v = check_list(c, p.select_action(), A, L, "select_action")
                check_top(c, v, [x / y for x, y in zip(s, n)], "greedy choice (u=%g)" % u, scale=max(abs(o[1]) for o in ref.obs))
                c.step()
            elif full:
                check_uniform(c, rng, p.select_action, A, L, "u=%g" % u)
            else:
                check_list(c, p.select_action(), A, L, "select_action")
                c.step()
    else:
        al, be = ref.prior
        for perm in (list(itertools.permutations([0.1, 0.4, 0.45, 0.9][:A])) + [tuple(0.5 + 1e-7 * ((i * 3 + 1) % 5) for i in range(A))] if full else ([((i * 5 + 2) % 23) / 23.0 for i in range(A)],)):
            rng.program(values=perm)
            v = check_list(c, p.select_action(), A, L, "select_action")
            c.step()
            c.true(len(rng.calls) == A, "expected one posterior draw per action, saw %d" % len(rng.calls))
            for a in range(A):
                k, x, y = rng.calls[a]
                c.close(x, al[a] + s[a], "posterior alpha of action %d" % a)
                c.close(y, be[a] + n[a] - s[a], "posterior beta of action %d" % a)
            check_top(c, v, list(perm), "posterior draws %s" % (perm,))


def build(kind, A, L, batch, eps, rs=None):
    from obp import policy as P

    rs = PathRNG() if rs is None else rs
    if kind == "eg":
        return P.EpsilonGreedy(n_actions=A, len_list=L, batch_size=batch, random_state=rs, epsilon=eps)
    if kind == "random":
        return P.Random(n_actions=A, len_list=L, batch_size=batch, random_state=rs)
    if kind == "bts":
        return P.BernoulliTS(n_actions=A, len_list=L, batch_size=batch, random_state=rs)
    return P.BernoulliTS(n_actions=A, len_list=L, batch_size=batch, random_state=rs, alpha=np.arange(1.0, A + 1.0), beta=np.arange(A, 0.0, -1.0) + 0.5)


def mkref(kind, A, batch):
    r = Ref(A, batch)
    r.prior = (np.ones(A), np.ones(A)) if kind == "bts" else (np.arange(1.0, A + 1.0), np.arange(A, 0.0, -1.0) + 0.5)
    return r


def explore(c, kind, A, L, batch, eps, depth, prefix, rewards):
    ops = [("u", a, r) for a in range(A) for r in rewards] + [("init",)]

    def apply(p, ref, op):
        if op[0] == "u":
            p.update_params(action=op[1], reward=op[2])
            ref.obs = ref.obs + [(op[1], op[2])]
        else:
            p.initialize()
            ref.obs = []
        c.step()

    def rec(p, ref, hist, d):
        n, s = ref.stats()
        key = (len(ref.obs) % batch, tuple(n), tuple(s), tuple(sorted(ref.obs[len(ref.acc()):])))
        full = c.state((kind, A, L, batch, eps, key))
        with c.case("history", _state=False, kind=kind, A=A, L=L, batch=batch, eps=eps, history=hist):
            check_state(c, kind, p, ref, A, L, eps, full)
        if d == 0:
            return
        for op in ops:
            p2, r2 = copy.deepcopy(p), copy.copy(ref)
            with c.case("op", _state=False, kind=kind, A=A, L=L, batch=batch, eps=eps, history=hist + [op]):
                apply(p2, r2, op)
            rec(p2, r2, hist + [op], d - 1)

    p, ref = build(kind, A, L, batch, eps), mkref(kind, A, batch)
    hist = []
    for op in prefix:
        apply(p, ref, op)
        hist.append(op)
    rec(p, ref, hist, depth)


def dist(c, A, L):
    """compute_batch_action_dist"""
    from obp import policy as P

    for n in (1, 2, 5):
        with c.case("random-dist", A=A, L=L, n=n):
            d = P.Random(n_actions=A, len_list=L, random_state=0).compute_batch_action_dist(n_rounds=n)
            c.same(d.shape, (n, A, L), "shape")
            c.close(d, np.full((n, A, L), 1.0 / A), "uniform")
            c.step()
        for perms in ([tuple(range(A))], [tuple(range(A)), tuple(reversed(range(A)))], list(itertools.permutations(range(A)))[:6]):
            for n_sim in (1, 4, 12):
                with c.case("bts-dist", A=A, L=L, n=n, perms=perms, n_sim=n_sim):
                    rng = PathRNG()
                    rng.program(values=[(x + 1) / (A + 1.0) for q in perms for x in q])
                    p = P.BernoulliTS(n_actions=A, len_list=L, random_state=rng)
                    d = p.compute_batch_action_dist(n_rounds=n, n_sim=n_sim)
                    exp = np.zeros((A, L))
                    for k in range(n_sim):
                        q = perms[k % len(perms)]
                        for l, a in enumerate(sorted(range(A), key=lambda a: -q[a])[:L]):
                            exp[a, l] += 1.0 / n_sim
                    c.close(d, np.tile(exp, (n, 1, 1)), "simulated distribution")
                    c.step()


def zozo(c):
    import os

    import yaml

    from obp import policy as P
    import obp.policy as pol

    conf = yaml.safe_load(open(os.path.join(os.path.dirname(pol.__file__), "conf", "prior_bts.yaml")))
    for camp in ("all", "men", "women"):
        A = len(conf[camp]["alpha"])
        for L in (1, 3):
            with c.case("zozotown", campaign=camp, L=L):
                rng = PathRNG()
                p = P.BernoulliTS(n_actions=A, len_list=L, random_state=rng, is_zozotown_prior=True, campaign=camp)
                vals = [((i * 37) % 101) / 101.0 for i in range(A)]
                ref = mkref("bts", A, 1)
                ref.prior = (conf[camp]["alpha"], conf[camp]["beta"])
                for i in range(4):
                    rng.program(values=vals)
                    v = check_list(c, p.select_action(), A, L, "select")
                    n, s = ref.stats()
                    for a in range(A):
                        c.close(rng.calls[a][1:], (ref.prior[0][a] + s[a], ref.prior[1][a] + n[a] - s[a]), "posterior of action %d" % a)
                    check_top(c, v, vals, "draws")
                    p.update_params(action=(i * 7) % A, reward=i % 2)
                    ref.obs.append(((i * 7) % A, i % 2))
                    c.step(2)


def ladder(c, kind, A, L, batch, T, skew=False):
    """long fixed histories, re-initialised half way, two instances interleaved"""
    eps = 0.25 if kind == "eg" else 1.0
    p, q = build(kind, A, L, batch, eps), build(kind, A, L, batch + 1, eps)
    rp, rq = mkref(kind, A, batch), mkref(kind, A, batch + 1)
    for rnd in range(2):
        for t in range(T):
            with c.case("long-history", kind=kind, A=A, L=L, batch=batch, t=t, round=rnd):
                a, r = (t * 5 + t // 3 + rnd) % A, float((t * 7 + rnd) % 3 > 0)
                if skew:
                    a = 0 if t % 8 and skew is True else a
                    if kind == "eg" and skew == "close":
                        a = (t // 5) % A
                        r = 0.5 + (t % 5) + 2.0 ** -19 * ((a * 3) % A)
                    elif kind == "eg" and skew == "tiny":
                        r = 2.0 ** -30 * ((t * 7 + rnd) % 13)
                    elif kind == "eg":
                        r = ((t * 7 + rnd) % 13) / 4.0 - 1.0 + ((300.0 if t % 2 else -300.0) if t % 17 == 0 else 0.0)
                p.update_params(action=a, reward=r)
                rp.obs.append((a, r))
                if t % 3 == 0:
                    q.update_params(action=(a + 1) % A, reward=1.0 - r)
                    rq.obs.append(((a + 1) % A, 1.0 - r))
                for pp, rr in ((p, rp), (q, rq)):
                    c.same(int(pp.n_trial), len(rr.obs), "n_trial")
                    n, s = rr.stats()
                    c.same([int(x) for x in pp.action_counts], n, "action_counts")
                    rng = pp.random_state
                    if kind == "eg":
                        for u in (0.2, 0.3):
                            rng.program(u=u)
                            v = check_list(c, pp.select_action(), A, L, "select")
                            if u > eps and min(n) > 0:
                                check_top(c, v, [x / y for x, y in zip(s, n)], "greedy", scale=max(abs(o[1]) for o in rr.obs))
                    else:
                        vals = [((i * 37 + t) % 101) / 101.0 * (1.0 if t % 2 else 1e-6) for i in range(A)]
                        rng.program(values=vals)
                        v = check_list(c, pp.select_action(), A, L, "select")
                        c.close([x[1] for x in rng.calls], [rr.prior[0][i] + s[i] for i in range(A)], "alpha")
                        c.close([x[2] for x in rng.calls], [rr.prior[1][i] + n[i] - s[i] for i in range(A)], "beta")
                        check_top(c, v, vals, "draws")
                c.step(3)
        with c.case("re-init", kind=kind, A=A, L=L, batch=batch, round=rnd):
            p.initialize()
            rp.obs = []
            check_state(c, kind, p, rp, A, L, eps, False)


def seeded(c, kind, A, L, batch):
    """integer seeds: same seed same behaviour, re-initialising restarts the same stream"""
    for seed in (0, 1, 12345):
        with c.case("seeded", kind=kind, A=A, L=L, batch=batch, seed=seed):
            def play(p, T=12):
                out = []
                for t in range(T):
                    v = p.select_action()
                    out.append(tuple(int(x) for x in v))
                    p.update_params(action=int(v[0]), reward=float(t % 2))
                return out

            p = build(kind, A, L, batch, 0.5, rs=seed)
            a = play(p)
            b = play(build(kind, A, L, batch, 0.5, rs=seed))
            c.same(b, a, "two policies with the same seed")
            p.initialize()
            c.same(play(p), a, "after re-initialising")
            c.step(36)
            c.outcome(a)


def preload():
    import obp.policy  # noqa: F401


def jobs(tier):
    th = tier == "thorough"
    out = []
    for kind in ("eg", "random", "bts", "bts-prior"):
        for batch in (1, 2, 3):
            for eps in ((0.0, 0.25, 1.0) if kind == "eg" else (1.0,)):
                rw = (0.0, 1.0) if kind != "eg" or eps == 1.0 else (0.5, -1.0) if eps == 0.25 else (2.5, 3.0)
                for L in (1, 2):
                    out.append(("explore", (kind, 2, L, batch, eps, (7 if th else 6) - (kind == "random"), [], rw)))
                for L in (1, 2, 3):
                    out.append(("explore", (kind, 3, L, batch, eps, (5 if th else 4) - (L != 2), [], rw)))
                    pre = [("u", 2, rw[0]), ("u", 0, rw[1]), ("u", 1, rw[1])]
                    out.append(("explore", (kind, 3, L, batch, eps, (4 if th else 3), pre, rw)))
    for A, L in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 3), (5, 5)):
        out.append(("dist", (A, L)))
    out.append(("zozo", ()))
    for kind in ("eg", "bts", "bts-prior"):
        for A, L, batch, T in ((3, 2, 1, 60), (5, 3, 4, 120), (20, 5, 7, 150), (10, 10, 10, 100)):
            out.append(("ladder", (kind, A, L, batch, T)))
        out.append(("ladder", (kind, 3, 2, 1, 420, True)))
        out.append(("ladder", (kind, 4, 1, 50, 620, True)))
        if kind == "eg":
            out.append(("ladder", (kind, 4, 2, 1, 80, "close")))
            out.append(("ladder", (kind, 3, 2, 2, 80, "tiny")))
        out.append(("ladder", (kind, 2, 1, 1, 2100)))
        out.append(("ladder", (kind, 150, 60, 3, 330)))
    for kind in ("eg", "random", "bts", "bts-prior"):
        for A, L, batch in ((2, 1, 1), (3, 2, 2), (6, 3, 1)):
            out.append(("seeded", (kind, A, L, batch)))
    return out
