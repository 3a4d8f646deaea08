"""C19: sampling and probability helpers over complete grids of distributions, draws and logits."""
import itertools
import math
from collections import Counter
from fractions import Fraction

import numpy as np

from mc.rng import ScriptedRNG

ID = "C19"
RULE = ("all distributions on a simplex grid (zeros included) x all draws on a grid four times finer, cell boundaries and the largest float below one included; all pairs/triples of rows; all logit vectors over a finite alphabet with extreme values; all one-hot selections")
BOUNDS = {"quick": "simplex grids 1/8 (<=4 actions) and 1/10, 1/7 (<=4), 32 draws; matrices of 3 rows; logit alphabets of 9 values for <=4 actions; one-hot for n<=3, A<=3, L<=3; cells of 2^-8..2^-50 in every arrangement; logits to 1.5e308; ladders of 20000 rows and 3000 actions", "thorough": "grids 1/16 and 5 actions"}
ASSUMPTIONS = ["distributions sum to one up to rounding"]
TOP = 1 - 2.0 ** -53


def simplex(A, k):
    for cuts in itertools.combinations(range(k + A - 1), A - 1):
        prev, out = -1, []
        for x in cuts:
            out.append(x - prev - 1)
            prev = x
        out.append(k + A - 2 - prev)
        yield tuple(out)


def exact_cell(w, k, u):
    t = Fraction(0)
    for a, x in enumerate(w):
        t += Fraction(x, k)
        if u < t:
            return a
    return None


def draw(c, dist, us, what="rows"):
    from obp.utils import sample_action_fast

    d = np.array(dist)
    before = d.copy()
    got = sample_action_fast(d, random_state=ScriptedRNG(uniforms=list(us)))
    c.step()
    c.same(d, before, "distribution after sampling")
    c.same(np.shape(got), (d.shape[0],), "shape of sampled actions")
    c.true(np.issubdtype(np.asarray(got).dtype, np.integer), "sampled actions are integers")
    return [int(x) for x in got]


def dyadic(c, A, k, part):
    """exact arithmetic: every boundary is representable"""
    grid = [Fraction(i, 4 * k) for i in range(4 * k)]
    for j, w in enumerate(simplex(A, k)):
        if j % 4 != part:
            continue
        with c.case("dyadic", weights=w, k=k):
            us = [float(u) for u in grid] + [TOP, 2.0 ** -60]
            got = draw(c, [[x / k for x in w]] * len(us), us)
            cnt = Counter()
            for u, g in zip(us, got):
                e = exact_cell(w, k, Fraction(u))
                c.same(g, e, "draw %r from %s" % (u, w))
            for u, g in zip(grid, got):
                cnt[g] += Fraction(1, 4 * k)
            for a in range(A):
                c.same(cnt[a], Fraction(w[a], k), "probability with which action %d is drawn" % a)


def decimal(c, A, k):
    """weights that are not representable: draws strictly inside cells, and the extremes"""
    for w in simplex(A, k):
        for dt in (np.float64, np.float32):
            p = np.array([x / k for x in w]).astype(dt)
            with c.case("decimal", weights=w, k=k, dtype=str(dt)):
                us = [float(Fraction(2 * i + 1, 4 * k)) for i in range(2 * k)]
                got = draw(c, [p] * len(us), us)
                for u, g in zip(us, got):
                    c.same(g, exact_cell(w, k, Fraction(u)), "draw %r from %s" % (u, w))
                for u in (0.0, TOP, TOP - 2.0 ** -53, 1e-300):
                    g = draw(c, [p], [u])[0]
                    c.true(w[g] > 0, "draw %r from %s gave action %d of probability zero" % (u, w, g))
                    c.same(g, [a for a in range(A) if w[a]][0 if u < 0.5 else -1], "extreme draw %r from %s" % (u, w))


def matrices(c, A):
    """each row uses its own draw and its own distribution"""
    k = 4
    rows = [w for w in simplex(A, k)]
    rows = rows[:: max(1, len(rows) // 6)]
    us = [0.0, 0.2, 0.25, 0.6, 0.75, 0.99]
    for n in (1, 2, 3):
        for pick in itertools.product(rows, repeat=n):
            for s in range(len(us)):
                u = [us[(s + 2 * i) % len(us)] for i in range(n)]
                with c.case("matrix", rows=pick, u=u):
                    m = np.array([[x / k for x in w] for w in pick])
                    exp = [exact_cell(w, k, Fraction(x)) for w, x in zip(pick, u)]
                    c.same(draw(c, m, u), exp, "sampled actions")
                    c.same(draw(c, np.asfortranarray(m), u), exp, "sampled actions, column-major input")


def onehot_int(c):
    for A in (2, 3, 5):
        for a in range(A):
            for u in (0.0, 0.3, 0.999, TOP):
                with c.case("deterministic", A=A, action=a, u=u):
                    m = np.zeros((2, A), dtype=int)
                    m[:, a] = 1
                    c.same(draw(c, m, [u, u]), [a, a], "deterministic policy")


def seeds(c):
    from obp.utils import sample_action_fast

    for seed, A, n in itertools.product((0, 1, 12345), (2, 5, 200), (1, 50)):
        with c.case("seed", seed=seed, A=A, n=n):
            rs = np.random.RandomState(A + n)
            d = rs.dirichlet(np.ones(A), size=n)
            d[:, A // 2] = 0
            d /= d.sum(1, keepdims=True)
            a = sample_action_fast(d, random_state=seed)
            c.same(sample_action_fast(d, random_state=seed), a, "same seed")
            c.same(sample_action_fast(d, random_state=np.random.RandomState(seed)), a, "same generator state")
            c.true((np.asarray(a) != A // 2).all(), "probability-zero action drawn")
            c.step(3)
            g = np.random.RandomState(seed)
            x, y = sample_action_fast(d, random_state=g), sample_action_fast(d, random_state=g)
            c.true(n == 1 or A == 2 or not np.array_equal(x, y), "a shared generator repeats itself")
            u = [((37 * i + 11) % 101) / 101.0 for i in range(n)]
            got = draw(c, d, u)
            for i in range(n):
                lo = math.fsum(d[i, :got[i]])
                hi = math.fsum(d[i, :got[i] + 1])
                c.true(lo - 1e-12 <= u[i] <= hi + 1e-12, "row %d: draw %g outside the cell of action %d" % (i, u[i], got[i]))


def ref_softmax(z):
    m = max(z)
    e = [math.exp(x - m) for x in z]
    s = math.fsum(e)
    return [x / s for x in e]


def soft(c, A, part):
    from obp.utils import softmax

    alpha = (-1e4, -700.0, -3.0, -0.5, 0.0, 1e-9, 2.0, 40.0, 1e4)
    rows = [z for i, z in enumerate(itertools.product(alpha, repeat=A)) if i % 4 == part]
    for i in range(0, len(rows), 50):
        blk = rows[i:i + 50]
        with c.case("softmax", rows=blk):
            x = np.array(blk)
            before = x.copy()
            p = softmax(x)
            c.step()
            c.same(x, before, "logits after the call")
            c.close(p, np.array([ref_softmax(z) for z in blk]), "softmax", rtol=1e-10, atol=1e-300)
            c.true(np.isfinite(p).all() and (p >= 0).all() and (p <= 1).all(), "softmax values are probabilities")
            c.close(p.sum(1), np.ones(len(blk)), "softmax sums")
            for s in (-5.0, 3.0, 1024.0):
                c.close(softmax(x + s), p, "softmax of shifted logits", rtol=1e-7, atol=1e-12)
            for j, z in enumerate(blk):
                for a, b in itertools.combinations(range(A), 2):
                    if z[a] > z[b]:
                        c.true(p[j, a] >= p[j, b], "softmax order")
                    elif z[a] == z[b]:
                        c.true(p[j, a] == p[j, b], "softmax of equal logits")
            c.close(softmax(x.astype(np.float32)), p, "float32", rtol=1e-3, atol=1e-4) if (np.abs(x) < 50).all() else None
    if part == 0:
        for z in itertools.product((-2, 0, 1, 3), repeat=A):
            with c.case("softmax-int", logits=z):
                c.close(softmax(np.array([z])), np.array([ref_softmax(z)]), "integer logits")
                x3 = np.array([[[v, -v] for v in z]] * 2, dtype=float)
                c.close(softmax(x3), np.array([[[ref_softmax(z)[a], ref_softmax([-v for v in z])[a]] for a in range(A)]] * 2), "3-d logits, normalised over actions")


def sig(c):
    from obp.utils import sigmoid

    grid = [-1e6, -1000.0, -745.0, -100.0, -40.0, -10.0, -1.0, -1e-9, 0.0, 1e-9, 0.5, 1.0, 10.0, 40.0, 100.0, 745.0, 1000.0, 1e6] + [i / 7.0 for i in range(-70, 71)]

    def ref(x):
        if x >= 0:
            return 1 / (1 + math.exp(-x))
        return math.exp(x) / (1 + math.exp(x)) if x > -745 else 0.0

    with c.case("sigmoid", grid=grid):
        x = np.array(grid)
        p = sigmoid(x)
        c.close(p, np.array([ref(v) for v in grid]), "sigmoid", rtol=1e-10, atol=1e-300)
        c.true(((p >= 0) & (p <= 1)).all(), "sigmoid range")
        c.close(sigmoid(-x), 1 - p, "sigmoid symmetry", atol=1e-12)
        c.true((np.diff(np.sort(x)) >= 0).all() and (np.diff(p[np.argsort(x, kind="stable")]) >= 0).all(), "sigmoid is monotone")
        c.step()
    for v in grid:
        with c.case("sigmoid-scalar", x=v):
            c.close(float(sigmoid(v)), ref(v), "scalar sigmoid", rtol=1e-10, atol=1e-300)
            c.close(np.asarray(sigmoid(np.array([[v, -v]]))), np.array([[ref(v), ref(-v)]]), "matrix sigmoid", rtol=1e-10, atol=1e-300)


def onehot(c, n, A, L):
    from obp.utils import convert_to_action_dist

    for sel in itertools.product(itertools.permutations(range(A), L) if A >= L else [], repeat=n):
        with c.case("one-hot", n=n, A=A, L=L, selected=sel):
            s = np.array(sel)
            before = s.copy()
            d = convert_to_action_dist(n_actions=A, selected_actions=s)
            c.step()
            e = np.zeros((n, A, L))
            for i, j in itertools.product(range(n), range(L)):
                e[i, sel[i][j], j] = 1
            c.same(np.asarray(d, dtype=float), e, "action distribution")
            c.same(s, before, "selected actions after the call")
            big = convert_to_action_dist(n_actions=A + 2, selected_actions=s)
            c.same(np.asarray(big, dtype=float), np.concatenate([e, np.zeros((n, 2, L))], axis=1), "action distribution with unused actions")


def tiny(c, A):
    """cells of very different sizes (down to 2^-50), in every arrangement; all boundaries are representable"""
    exps = (8, 20, 27, 34, 44, 50)
    for es in itertools.product(exps, repeat=A - 1):
        rest = 1 - sum(Fraction(1, 2 ** e) for e in es)
        for at in range(A):
            w = [Fraction(1, 2 ** e) for e in es]
            w.insert(at, rest)
            with c.case("tiny", exponents=es, at=at):
                lo, us, exp = Fraction(0), [], []
                for a, x in enumerate(w):
                    for f in (Fraction(1, 2), Fraction(1, 8), Fraction(7, 8)):
                        u = float(lo + x * f)
                        if lo <= Fraction(u) < lo + x:
                            us.append(u)
                            exp.append(a)
                    lo += x
                c.true(set(exp) == set(range(A)), "harness: a cell without a representable draw")
                c.same(draw(c, [[float(x) for x in w]] * len(us), us), exp, "draws %s" % us)


def wide(c, n, A):
    """many rows and actions: each row has its own distribution and draw"""
    from obp.utils import convert_to_action_dist, sigmoid, softmax

    g = np.random.RandomState(n + A)
    with c.case("wide-sample", n=n, A=A):
        d = g.dirichlet(np.full(A, 0.3), size=n)
        d[np.arange(n), g.randint(A, size=n)] = 0
        d /= d.sum(1, keepdims=True)
        u = g.uniform(size=n)
        got = draw(c, d, u)
        cum = np.c_[np.zeros(n), d.cumsum(1)]
        i = np.arange(n)
        c.true((cum[i, got] <= u + 1e-12).all() and (u - 1e-12 <= cum[i, np.array(got) + 1]).all() and (d[i, got] > 0).all(), "some draw is outside the cell of the sampled action")
    with c.case("wide-softmax", n=n, A=A):
        z = g.normal(size=(n, A)) * 10.0 ** g.randint(-3, 3, size=(n, 1))
        p = softmax(z)
        e = np.exp(z - z.max(1, keepdims=True))
        c.step()
        c.close(p, e / e.sum(1, keepdims=True), "softmax", rtol=1e-9, atol=1e-300)
        c.close(sigmoid(z), np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z)))), "sigmoid", rtol=1e-9, atol=1e-300)
    with c.case("wide-one-hot", n=n, A=A):
        L = min(A, 7)
        s = np.array([g.permutation(A)[:L] for _ in range(n)])
        d = np.asarray(convert_to_action_dist(n_actions=A, selected_actions=s), dtype=float)
        c.step()
        c.same(d.shape, (n, A, L), "shape")
        i, j = np.meshgrid(np.arange(n), np.arange(L), indexing="ij")
        c.true((d[i, s, j] == 1).all() and d.sum() == n * L, "one-hot entries")


def huge(c):
    from obp.utils import softmax

    for z in itertools.product((-1e308, -1e300, -5.0, 0.0, 1.0, 1e300, 1.5e308), repeat=3):
        with c.case("huge-logits", logits=z):
            with np.errstate(all="ignore"):
                p = softmax(np.array([z, z[::-1]]))
            m = max(z)
            e = [math.exp(max(x - m, -800.0)) if x - m > -800 else 0.0 for x in z]
            ref = [x / sum(e) for x in e]
            c.step()
            c.close(p, np.array([ref, ref[::-1]]), "softmax", rtol=1e-9, atol=1e-300)


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for A in (1, 2, 3, 4) + ((5,) if deep else ()):
        J += [("dyadic", (A, 16 if deep and A < 5 else 8, p)) for p in range(4)]
    J += [("decimal", (A, k)) for A in (2, 3, 4) for k in (10, 7, 3)] + [("matrices", (A,)) for A in (2, 3)] + [("onehot_int", ()), ("seeds", ()), ("sig", ())]
    J += [("soft", (A, p)) for A in (1, 2, 3) + ((4,)) for p in range(4)]
    J += [("onehot", (n, A, L)) for n in (1, 2, 3) for A in (1, 2, 3) for L in (1, 2, 3) if L <= A]
    J += [("tiny", (A,)) for A in (2, 3) + ((4,) if deep else ())] + [("huge", ())] + [("wide", (n, A)) for n, A in ((3, 600), (2, 3000), (1500, 9), (20000, 3), (700, 130))]
    return J
