"""C18: synthetic bandit logs for every configuration of a menu, with the random source owned by the explorer."""
import itertools
import math

import numpy as np
from scipy.stats import norm

from mc.rng import WorldRNG, all_paths

ID = "C18"
RULE = ("every configuration of a product menu (actions, context dimension, reward type, reward function, behaviour function, inverse temperature, deficient actions, loggers and shares, embedding dimensions, action bounds) x programmed outcomes of "
        "every random draw; the log is compared field by field with an independent reconstruction from the draws")
BOUNDS = {"quick": "2-4 actions, 1-5 rounds, 11 uniform levels covering every cell of every behaviour distribution, all orders of support draws for <=4 actions, 2 consecutive batches; ladder of 300 rounds with library functions and real seeds", "thorough": "finer draws, more rounds and actions"}
ASSUMPTIONS = ["independence of the streams that drive contexts, actions and noise under real seeds is decided over a fixed list of seeds (600 seeds / 64-round patterns)"]


# --- reference pieces ---------------------------------------------------
def q_fn(context, action_context, random_state=None):
    n, A = context.shape[0], action_context.shape[0]
    return np.array([[0.5 + 0.4 * math.sin(3 * context[i].sum() + 1.7 * a + action_context[a].sum()) for a in range(A)] for i in range(n)])


def q_cont(context, action_context, random_state=None):
    return 4 * q_fn(context, action_context) - 2.2


def b_fn(context, action_context, random_state=None):
    n, A = context.shape[0], action_context.shape[0]
    return np.array([[math.cos(2 * context[i].sum() - 1.3 * a) * 1.5 for a in range(A)] for i in range(n)])


def softmax_row(z):
    m = max(z)
    e = [math.exp(x - m) for x in z]
    s = sum(e)
    return [x / s for x in e]


def cell(dist, u):
    t = 0.0
    for a, p in enumerate(dist):
        t += p
        if u < t:
            return a
    return None


def tn_mean(m, s):
    a = -m / s
    return m + s * math.exp(norm.logpdf(a) - norm.logsf(a))


def tn_ppf(u, m, s, lo=0.0, hi=1e10):
    a, b = (lo - m) / s, (hi - m) / s
    if a > 30:  # far tail: solve log sf(x) = log(1 - u) + log sf(a) (the upper bound is out of reach)
        goal, x0, x1 = math.log1p(-u) + norm.logsf(a), a, 2 * a
        for _ in range(100):
            mid = (x0 + x1) / 2
            x0, x1 = (mid, x1) if norm.logsf(mid) > goal else (x0, mid)
        return m + s * x0
    if a > 0:  # symmetric form for accuracy
        return m - s * norm.ppf(norm.sf(b) + (1 - u) * (norm.sf(a) - norm.sf(b)))
    return m + s * norm.ppf(norm.cdf(a) + u * (norm.cdf(b) - norm.cdf(a)))


def tn_mass(a, b):
    return norm.sf(a) - norm.sf(b) if a > 0 else norm.cdf(b) - norm.cdf(a)


VALS = [((7 * i) % 19) * 0.21 - 1.9 for i in range(19)]
VALS[1], VALS[6] = 4.6, -5.3  # rare but possible draws
USQ = (0.0, 0.03, 0.11, 0.26, 0.37, 0.49, 0.58, 0.66, 0.79, 0.93, 0.999)


def rows_ok(c, ctxt, n, dim, vals=VALS):
    c.close(ctxt, np.array([vals[i % len(vals)] for i in range(n * dim)]).reshape(n, dim), "contexts")


def check_policy(c, pi, logits, betas, n_def, what):
    """pi (n, A): zero on exactly n_def actions, softmax of beta*logits on the others"""
    n, A = logits.shape
    c.same(pi.shape, (n, A), what + " shape")
    sup = []
    for i in range(n):
        s = [a for a in range(A) if pi[i, a] > 0] if n_def else list(range(A))
        if len(s) < A - n_def and abs(betas[i]) * np.ptp(logits[i]) > 600:
            continue  # a supported action underflowed to zero
        c.same(len(s), A - n_def, "%s: supported actions in round %d" % (what, i))
        e = np.zeros(A)
        e[s] = softmax_row([betas[i] * logits[i, a] for a in s])
        c.close(pi[i], e, "%s in round %d" % (what, i))
        sup.append(tuple(s))
    return sup


def common(c, f, n, A, dim, ac):
    c.same(f["n_rounds"], n, "n_rounds")
    c.same(f["n_actions"], A, "n_actions")
    c.true(f["position"] is None, "position")
    c.same(np.shape(f["context"]), (n, dim), "context shape")
    c.same(np.shape(f["action"]), (n,), "action shape")
    c.true(np.issubdtype(np.asarray(f["action"]).dtype, np.integer), "integer actions")
    c.same(np.shape(f["reward"]), (n,), "reward shape")
    c.same(np.shape(f["expected_reward"]), (n, A), "expected reward shape")
    c.same(np.shape(f["pi_b"]), (n, A, 1), "pi_b shape")
    c.close(f["pscore"], np.array([f["pi_b"][i, f["action"][i], 0] for i in range(n)]), "pscore is the behaviour probability of the logged action")
    if ac is not None:
        c.close(f["action_context"], ac, "action context")


def actions_for(f, u):
    return [cell(f["pi_b"][i, :, 0], u) for i in range(f["n_rounds"])]


def check_binary(c, rng, f, q, what="reward"):
    n = f["n_rounds"]
    b = [x for x in rng.calls if x[0] == "binomial"]
    if len(b) == n:
        c.close([x[2] for x in b], [q[i, f["action"][i]] for i in range(n)], "%s success probability" % what)
        c.same(np.asarray(f["reward"]), np.array([int(rng.ub[i % len(rng.ub)] < q[i, f["action"][i]]) for i in range(n)]), what)
    else:
        c.true(np.isin(f["reward"], (0, 1)).all(), "%s is not binary" % what)


# --- SyntheticBanditDataset / multi-logger ------------------------------
def menu(A, multi):
    betas = ([1.0, -2.0], [0.0, 3, 1.5], [2.0]) if multi else (0.0, 1.0, -3.0, 5)
    for rt, rf, bf, beta, nd, ac in itertools.product(("binary", "continuous"), (0, 1), (0,) if multi else (0, 1), betas, sorted({0, 1, A - 1}), (0, 1)):
        yield rt, rf, bf, beta, nd, ac


def make(A, dim, rt, rf, bf, beta, nd, ac, rs, rhos=None, std=1.0):
    from obp.dataset import SyntheticBanditDataset, SyntheticMultiLoggersBanditDataset

    kw = dict(n_actions=A, dim_context=dim, reward_type=rt, reward_function=(q_fn if rt == "binary" else q_cont) if rf else None, n_deficient_actions=nd, reward_std=std,
              action_context=np.arange(2 * A).reshape(A, 2) * 0.37 if ac else None, random_state=rs)
    if rhos is not None:
        return SyntheticMultiLoggersBanditDataset(betas=list(beta), rhos=list(rhos), **kw)
    return SyntheticBanditDataset(behavior_policy_function=b_fn if bf else None, beta=beta, **kw)


def synth(c, A, dim, multi):
    for cfg in menu(A, multi):
        rt, rf, bf, beta, nd, ac = cfg
        rhos = {1: [0.7], 2: [1, 3], 3: [0.2, 0.5, 0.3]}[len(beta)] if multi else None
        for n, std in ((1, 1.0), (3, 0.5), (5, 2.0), (2, 0.04)):
            for k, u in enumerate(USQ):
                g = [((i * (2 * k + 3) + k) % 23) * 0.3 for i in range(23)]
                ub = [((5 * i + 2 * k) % 11) / 11.0 + 0.01 for i in range(11)]
                with c.case("synthetic", A=A, dim=dim, reward_type=rt, reward_function=rf, behaviour=bf, beta=beta, deficient=nd, action_context=ac, n=n, std=std, u=u, rhos=rhos):
                    rng = WorldRNG()
                    rng.program(u=[0.31, 0.62, 0.83, 0.17], values=VALS)
                    ds = make(A, dim, rt, rf, bf, beta, nd, ac, rng, rhos, std)
                    acx = np.array(ds.action_context)
                    if not ac:
                        c.same(acx, np.eye(A, dtype=int), "default action context")
                    for batch in (0, 1):
                        rng.program(u=u, values=VALS, gumbels=g, ub=ub)
                        f = ds.obtain_batch_bandit_feedback(n_rounds=n)
                        c.step()
                        common(c, f, n, A, dim, acx)
                        rows_ok(c, f["context"], n, dim)
                        loc = (q_fn if rt == "binary" else q_cont)(f["context"], acx) if rf else np.tile(np.array([0.31, 0.62, 0.83, 0.17])[:A], (n, 1))
                        q = loc if rt == "binary" else np.array([[tn_mean(m, std) for m in r] for r in loc])
                        c.close(f["expected_reward"], q, "expected reward", rtol=1e-7)
                        logits = b_fn(f["context"], acx) if bf else q
                        if multi:
                            idx = np.asarray(f["stratum_idx"])
                            c.same(idx.shape, (n,), "stratum_idx shape")
                            share = np.array(rhos) / sum(rhos)
                            for s, r in enumerate(share):
                                c.true(abs((idx == s).sum() - n * r) <= 1 + 1e-9, "stratum %d has %d of %d rounds, share %g" % (s, (idx == s).sum(), n, r))
                            c.same(f["n_strata"], len(beta), "n_strata")
                            bt = [beta[s] for s in idx]
                        else:
                            bt = [beta] * n
                        sup = check_policy(c, f["pi_b"][:, :, 0], logits, bt, nd, "behaviour policy")
                        if multi:
                            e = np.zeros((n, A))
                            for i in range(n):
                                for bb, r in zip(beta, share):
                                    e[i, list(sup[i])] += r * np.array(softmax_row([bb * logits[i, a] for a in sup[i]]))
                            c.close(f["pi_b_avg"], e[:, :, None], "average behaviour policy")
                            c.close(f["pscore_avg"], [e[i, f["action"][i]] for i in range(n)], "average propensity")
                        exp_a = actions_for(f, u)
                        for i in range(n):
                            if exp_a[i] is not None:
                                c.same(int(f["action"][i]), exp_a[i], "action of round %d for draw %g" % (i, u))
                        if rt == "binary":
                            check_binary(c, rng, f, loc)
                        elif u > 0:
                            c.close(f["reward"], [tn_ppf(u, loc[i, f["action"][i]], std) for i in range(n)], "continuous reward for draw %g" % u, rtol=1e-6, atol=1e-8)
                        c.state((A, dim, cfg, n, tuple(int(a) for a in f["action"]), tuple(sup)))


def strata(c):
    """all share vectors x all sizes: every round belongs to a stratum, counts are the rounded shares"""
    from obp.dataset import SyntheticMultiLoggersBanditDataset

    grids = [r for k in (1, 2, 3, 4) for r in itertools.product((1, 2, 3, 0.1) if k < 4 else (1, 3, 0.1), repeat=k)] + [(0.5, 0.5, 0.0), (0.0, 1.0), (0.3, 0.3, 0.3, 0.1), (1, 1, 1, 1, 1, 1, 1), tuple(1 + k % 3 for k in range(20)), (0.999, 0.001), (1, 1000, 1)]
    for rhos in grids:
        betas = [float(k) for k in range(len(rhos))]
        ds = None
        for n in list(range(1, 13)) + [100] + ([1500] if len(rhos) < 3 or sum(rhos) > 100 else []):
            with c.case("strata", rhos=rhos, n=n):
                if ds is None:
                    ds = SyntheticMultiLoggersBanditDataset(n_actions=3, dim_context=2, reward_function=q_fn, betas=betas, rhos=list(rhos), random_state=3)
                f = ds.obtain_batch_bandit_feedback(n_rounds=n)
                c.step()
                idx = np.asarray(f["stratum_idx"])
                c.same(idx.shape, (n,), "stratum_idx shape")
                share = np.array(rhos, dtype=float) / sum(rhos)
                c.true((idx >= 0).all() and (idx < len(rhos)).all(), "stratum labels")
                for s, r in enumerate(share):
                    c.true(abs((idx == s).sum() - n * r) <= 1 + 1e-9, "stratum %d has %d of %d rounds, share %g" % (s, (idx == s).sum(), n, r))
                check_policy(c, f["pi_b"][:, :, 0], f["expected_reward"], [betas[s] for s in idx], 0, "behaviour policy")
                common(c, f, n, 3, 2, None)


def extremes(c):
    """sharp behaviour policies, rare loggers: propensities down to underflow are reported as they are"""
    from obp.dataset import SyntheticBanditDataset, SyntheticBanditDatasetWithActionEmbeds, SyntheticMultiLoggersBanditDataset

    q2 = lambda context, action_context, random_state=None: 0.5 + 0.45 * np.sin(3 * context.sum(1)[:, None] + 1.7 * np.arange(action_context.shape[0])[None])
    for seed, nd, A, bt in itertools.product((0, 12345), (0, 1), (2, 3, 12, 60), (-40.0, 15.0, 200.0, 3000.0)):
        with c.case("extreme", seed=seed, deficient=nd, A=A, beta=bt):
            n = 40
            f = SyntheticBanditDataset(n_actions=A, dim_context=2, reward_function=q2, beta=bt, n_deficient_actions=nd, random_state=seed).obtain_batch_bandit_feedback(n_rounds=n)
            c.step()
            common(c, f, n, A, 2, None)
            if bt < 1000:
                check_policy(c, f["pi_b"][:, :, 0], f["expected_reward"], [bt] * n, nd, "behaviour policy")
            c.close(f["pi_b"].sum(1), np.ones((n, 1)), "behaviour policy sums to one")
            c.true((np.asarray(f["pscore"]) > 0).all(), "logged actions have positive propensity")
            for rhos, bs in (((0.5, 0.5), (0.0, bt)), ((0.999, 0.001), (bt, 0.0)), ((0.2, 0.0, 0.8), (bt, 1.0, -bt))):
                f = SyntheticMultiLoggersBanditDataset(n_actions=A, dim_context=2, reward_function=q2, betas=list(bs), rhos=list(rhos), n_deficient_actions=nd, random_state=seed).obtain_batch_bandit_feedback(n_rounds=n)
                c.step()
                common(c, f, n, A, 2, None)
                dead = [[a for a in range(A) if f["pi_b_avg"][i, a, 0] == 0] for i in range(n)]
                if bt < 500:
                    e = np.zeros((n, A))
                    for i in range(n):
                        if nd:
                            c.same(len(dead[i]), nd, "deficient actions")
                        s = [a for a in range(A) if a not in dead[i]] if nd else list(range(A))
                        for b, rh in zip(bs, rhos):
                            e[i, s] += rh * np.array(softmax_row([b * f["expected_reward"][i, a] for a in s]))
                    c.close(f["pi_b_avg"][:, :, 0], e, "average behaviour policy", rtol=1e-7, atol=1e-300)
                    c.close(f["pscore_avg"], e[np.arange(n), f["action"]], "average propensity", rtol=1e-7, atol=1e-300)
            c.close(np.log(np.maximum(f["pscore"], 1e-300)), np.log(np.maximum(f["pi_b"][np.arange(n), f["action"], 0], 1e-300)), "propensity")


def supports(c, A, nd, which):
    """the deficient set of a round is uniform over all sets: every order of the support draws is enumerated"""
    from collections import Counter

    with c.case("supports", A=A, deficient=nd, dataset=which):
        cnt = Counter()
        rng = WorldRNG()
        rng.program(u=0.4, values=VALS)
        ds = make(A, 1, "binary", 1, 0, [1.0, 2.0] if which == "multi" else 1.0, nd, 0, rng, [1, 1] if which == "multi" else None)
        for perm in itertools.permutations(range(A)):
            def run():
                rng._gi = 0
                f = ds.obtain_batch_bandit_feedback(n_rounds=1)
                return tuple(int(a) for a in np.nonzero(f["pi_b"][0, :, 0])[0])

            rng.program(u=0.4, values=VALS, gumbels=[float(p) for p in perm], ub=[0.5])
            for pr, s in all_paths(rng, run):
                cnt[s] += pr
            c.step()
        tot = sum(cnt.values())
        sets = list(itertools.combinations(range(A), A - nd))
        for s in sets:
            c.close(float(cnt[s] / tot), 1 / len(sets), "probability that the supported actions are %s" % (s,))


# --- embeddings ---------------------------------------------------------
def embed(c, rt, rf, nd, cats):
    from obp.dataset import SyntheticBanditDatasetWithActionEmbeds

    ncat, ndim, nun, nirr = cats
    A, dim = 4, 2
    for seed, beta, bf in itertools.product((1, 2, 12345), (0.0, 1.5), (0, 1)):
        with c.case("embed", reward_type=rt, reward_function=rf, deficient=nd, cats=cats, seed=seed, beta=beta, behaviour=bf):
            def mk():
                return SyntheticBanditDatasetWithActionEmbeds(n_actions=A, dim_context=dim, reward_type=rt, reward_function=(q_fn if rt == "binary" else q_cont) if rf else None, beta=beta, n_cat_per_dim=ncat, n_cat_dim=ndim,
                                                              n_unobserved_cat_dim=nun, n_irrelevant_cat_dim=nirr, n_deficient_actions=nd, behavior_policy_function=b_fn if bf else None, reward_std=0.5, random_state=seed)

            one, two = mk(), mk()
            ws = []
            for batch in range(2):
                n = 30
                f, g = one.obtain_batch_bandit_feedback(n_rounds=n), two.obtain_batch_bandit_feedback(n_rounds=n)
                c.step()
                for k in f:
                    if isinstance(f[k], np.ndarray):
                        c.same(f[k], g[k], "%s for equal seeds" % k)
                common(c, f, n, A, dim, None)
                ws.append(embed_fields(c, f, n, A, ndim, nun, nirr, ncat, beta, nd, bf, None))
            if nun <= nirr:
                c.close(ws[0], ws[1], "importance of the embedding dimensions in consecutive batches", rtol=1e-5, atol=1e-6)
    # programmed draws: embeddings, actions and rewards follow the reported distributions
    for u in USQ:
        for k in range(3):
            with c.case("embed-scripted", reward_type=rt, reward_function=rf, deficient=nd, cats=cats, u=u, k=k):
                ds = SyntheticBanditDatasetWithActionEmbeds(n_actions=A, dim_context=dim, reward_type=rt, reward_function=(q_fn if rt == "binary" else q_cont) if rf else None, beta=1.0, n_cat_per_dim=ncat, n_cat_dim=ndim,
                                                            n_unobserved_cat_dim=nun, n_irrelevant_cat_dim=nirr, n_deficient_actions=nd, reward_std=0.5, random_state=k)
                rng = WorldRNG()
                ds.random_ = rng
                rng.program(u=u, values=VALS, gumbels=[((3 * i + k) % 13) * 0.4 for i in range(13)], ub=[((5 * i + 3 * k) % 11) / 11.0 + 0.01 for i in range(11)])
                n = 12
                f = ds.obtain_batch_bandit_feedback(n_rounds=n)
                c.step()
                common(c, f, n, A, dim, None)
                w = embed_fields(c, f, n, A, ndim, nun, nirr, ncat, 1.0, nd, 0, None)
                exp_a = actions_for(f, u)
                for i in range(n):
                    if exp_a[i] is not None:
                        c.same(int(f["action"][i]), exp_a[i], "action of round %d for draw %g" % (i, u))
                    for d in range(f["action_embed"].shape[1]):
                        e = cell(f["p_e_a"][f["action"][i], :, d], u)
                        if e is not None:
                            c.same(int(f["action_embed"][i, d]), e, "embedding %d of round %d for draw %g" % (d, i, u))
                if nun <= nirr:
                    fact = np.array([sum(w[d] * f["q_x_e"][i, f["action_embed"][i, d], d] for d in range(len(w))) for i in range(n)])
                    b = [x for x in rng.calls if x[0] == "binomial"]
                    if rt == "binary" and len(b) == n:
                        c.close([x[2] for x in b], fact, "success probability given the logged embedding", rtol=1e-5, atol=1e-6)
                        c.same(np.asarray(f["reward"]), np.array([int(rng.ub[i % 11] < b[i][2]) for i in range(n)]), "reward")
                    nm = [x for x in rng.calls if x[0] == "normal"][n * dim:]
                    if rt == "continuous" and len(nm) == n:
                        z = [VALS[(n * dim + i) % len(VALS)] for i in range(n)]
                        c.close(f["reward"], fact + 0.5 * np.array(z), "reward given the logged embedding", rtol=1e-5, atol=1e-6)


def embed_fields(c, f, n, A, ndim, nun, nirr, ncat, beta, nd, bf, _):
    vis = ndim - nun
    c.same(np.shape(f["action_embed"]), (n, vis), "embedding shape")
    c.same(np.shape(f["p_e_a"]), (A, ncat, vis), "p_e_a shape")
    c.same(np.shape(f["q_x_e"]), (n, ncat, vis), "q_x_e shape")
    c.same(np.shape(f["action_context"]), (A, vis), "action context shape")
    emb = np.asarray(f["action_embed"])
    c.true(((emb >= 0) & (emb < ncat)).all(), "embedding categories in range")
    if vis:
        c.close(np.asarray(f["p_e_a"]).sum(1), np.ones((A, vis)), "p(e|a) sums to one")
        c.true((np.asarray(f["p_e_a"]) >= 0).all(), "p(e|a) non-negative")
    logits = b_fn(f["context"], np.eye(A)) if bf else f["expected_reward"]
    check_policy(c, f["pi_b"][:, :, 0], logits, [beta] * n, nd, "behaviour policy")
    if nun > nirr or vis == 0:
        return None
    # expected reward is a fixed convex combination over embedding dimensions of E_{p(e|a)} q(x, e)
    per = np.array([f["q_x_e"][:, :, d] @ f["p_e_a"][:, :, d].T for d in range(vis)])  # (vis, n, A)
    M = per.reshape(vis, -1).T
    w, *_r = np.linalg.lstsq(M, f["expected_reward"].ravel(), rcond=None)
    c.close(M @ w, f["expected_reward"].ravel(), "expected reward is the embedding-marginalised reward", rtol=1e-6, atol=1e-8)
    if np.linalg.matrix_rank(M, tol=1e-6) == vis:
        c.true((w > -1e-6).all() and abs(w.sum() - 1) < 1e-5 if nirr < ndim else np.allclose(w, 0, atol=1e-6), "importance of the dimensions %s" % np.round(w, 6))
        irr = nirr - nun
        c.true(np.allclose(w[:irr], 0, atol=1e-6), "irrelevant dimensions have no importance")
    return w


# --- continuous actions -------------------------------------------------
def beh_c(context, random_state=None):
    return 1.3 * context.sum(axis=1) + 0.2


def rew_c(context, action, random_state=None):
    return context.sum(axis=1) * 0.7 - (action - 0.4) ** 2


def continuous(c, dim):
    from obp.dataset import SyntheticContinuousBanditDataset

    for (lo, hi), bf, rf, an, rn in itertools.product(((-1.0, 1.0), (0.0, 10.0), (-np.inf, np.inf), (-2, np.inf), (1, 4)), (0, 1), (0, 1), (1.0, 0.3), (0.0, 2.0)):
        if not bf and not (np.isfinite(lo) and np.isfinite(hi)):
            continue
        for n in (1, 4):
            for k, u in enumerate(USQ[1:]):
                with c.case("continuous", dim=dim, lo=lo, hi=hi, behaviour=bf, reward_function=rf, action_noise=an, reward_noise=rn, n=n, u=u):
                    rng = WorldRNG()
                    ds = SyntheticContinuousBanditDataset(dim_context=dim, action_noise=an, reward_noise=rn, min_action_value=lo, max_action_value=hi, reward_function=rew_c if rf else None, behavior_policy_function=beh_c if bf else None, random_state=rng)
                    for batch in (0, 1):
                        rng.program(u=u, values=VALS)
                        f = ds.obtain_batch_bandit_feedback(n_rounds=n)
                        c.step()
                        c.same(f["n_rounds"], n, "n_rounds")
                        c.same(np.shape(f["context"]), (n, dim), "context shape")
                        for key in ("action", "pscore", "reward", "expected_reward"):
                            c.same(np.shape(f[key]), (n,), key + " shape")
                        c.true(f["position"] is None, "position")
                        rows_ok(c, f["context"], n, dim)
                        if bf:
                            m = beh_c(f["context"])
                            ea = np.array([tn_ppf(u, x, an, lo, hi) for x in m])
                            ep = [norm.pdf((a - x) / an) / an / tn_mass((lo - x) / an, (hi - x) / an) for a, x in zip(f["action"], m)]
                        else:
                            ea, ep = np.full(n, lo + u * (hi - lo)), np.full(n, 1 / (hi - lo))
                        c.close(f["action"], ea, "action for draw %g" % u, rtol=1e-6, atol=1e-8)
                        c.close(f["pscore"], ep, "density of the logged action", rtol=1e-6, atol=1e-10)
                        act = np.asarray(f["action"])
                        q = rew_c(f["context"], act) if rf else 2 * np.abs(act) ** 1.5 - 5 * act
                        c.close(f["expected_reward"], q, "expected reward")
                        z = [VALS[(n * dim + i) % len(VALS)] for i in range(n)]
                        nm = [x for x in rng.calls if x[0] == "normal"]
                        if len(nm) == n * dim + n:
                            c.close(f["reward"], q + rn * np.array(z), "reward")
                        c.close(ds.calc_ground_truth_policy_value(context=f["context"], action=act * 0.5), (rew_c(f["context"], act * 0.5) if rf else 2 * np.abs(act * 0.5) ** 1.5 - 5 * (act * 0.5)).mean(), "ground truth")


# --- ground truth -------------------------------------------------------
def truth(c):
    from obp.dataset import SyntheticBanditDataset, SyntheticBanditDatasetWithActionEmbeds, SyntheticMultiLoggersBanditDataset
    from mc.core import Frozen

    ds = [SyntheticBanditDataset(n_actions=3), SyntheticMultiLoggersBanditDataset(n_actions=3, betas=[1.0], rhos=[1.0]), SyntheticBanditDatasetWithActionEmbeds(n_actions=3)]
    levels = [(1, 0, 0), (0, 1, 0), (0.5, 0.25, 0.25), (0.2, 0.0, 0.8)]
    for d in ds:
        for n in (1, 2, 3):
            for rows in itertools.product(levels, repeat=n):
                for L in (1, 2):
                    er = np.array([[i + 1.0, -2.0 * i + 0.5, 3.25 - a] for i, a in zip(range(n), range(n))])
                    ad = np.zeros((n, 3, L))
                    ad[:, :, 0] = rows
                    if L == 2:
                        ad[:, :, 1] = 1 / 3
                    with c.case("truth", dataset=type(d).__name__, rows=rows, L=L):
                        fr = Frozen(er, ad)
                        c.close(d.calc_ground_truth_policy_value(expected_reward=er, action_dist=ad), sum(rows[i][a] * er[i, a] for i in range(n) for a in range(3)) / n, "policy value")
                        fr.check(c)
                        c.step()
                        for sc in (1e6, 1e-6):
                            c.close(d.calc_ground_truth_policy_value(expected_reward=er * sc, action_dist=ad), sc * sum(rows[i][a] * er[i, a] for i in range(n) for a in range(3)) / n, "policy value at scale %g" % sc, rtol=1e-9, atol=0)
        for n in (1500,):
            with c.case("truth-long", dataset=type(d).__name__, n=n):
                er = np.array([[math.sin(i + 2 * a) for a in range(3)] for i in range(n)])
                w = np.array([[1.0 + (i * (a + 1)) % 7 for a in range(3)] for i in range(n)])
                w /= w.sum(1, keepdims=True)
                c.close(d.calc_ground_truth_policy_value(expected_reward=er, action_dist=w[:, :, None]), math.fsum(w[i, a] * er[i, a] for i in range(n) for a in range(3)) / n, "policy value", rtol=1e-9, atol=0)
        for shp in (((3, 3), (2, 3, 1)), ((3, 3), (3, 2, 1)), ((3,), (3, 3, 1)), ((3, 3), (3, 3))):
            with c.case("truth-malformed", dataset=type(d).__name__, shapes=shp):
                c.rejects(lambda: d.calc_ground_truth_policy_value(expected_reward=np.ones(shp[0]), action_dist=np.full(shp[1], 1 / 3)), "shapes %s" % (shp,))


# --- library functions and real seeds -----------------------------------
def lib():
    from obp import dataset as D

    rew = [("logistic", D.logistic_reward_function, 1), ("logistic_poly", D.logistic_polynomial_reward_function, 1), ("logistic_sparse", D.logistic_sparse_reward_function, 1),
           ("linear", D.linear_reward_function, 0), ("polynomial", D.polynomial_reward_function, 0), ("sparse", D.sparse_reward_function, 0)]
    beh = [("linear", D.linear_behavior_policy), ("polynomial", D.polynomial_behavior_policy)]
    return rew, beh


def functions(c):
    rew, beh = lib()
    for dim, A, n, seed in itertools.product((1, 2, 4), (2, 3, 5), (2, 3, 5, 10), (0, 12345)):
        rs = np.random.RandomState(dim * 100 + A * 10 + n)
        X, Z = rs.normal(size=(n, dim)), np.eye(A)
        Z2 = rs.normal(size=(A, 2))
        for name, fn, logistic in rew + [("beh_" + b[0], b[1], 0) for b in beh]:
            for z, ac in ((0, Z), (1, Z2)):
                with c.case("function", function=name, dim=dim, A=A, n=n, seed=seed, features=z):
                    from mc.core import Frozen

                    fr = Frozen(X, ac)
                    q = fn(context=X, action_context=ac, random_state=seed)
                    fr.check(c)
                    c.step()
                    c.same(np.shape(q), (n, A), "shape")
                    c.true(np.isfinite(q).all(), "finite values")
                    c.same(fn(context=X, action_context=ac, random_state=seed), q, "same seed")
                    if logistic:
                        c.true(((q >= 0) & (q <= 1)).all(), "logistic rewards are probabilities")
                    p = list(rs.permutation(n))
                    c.close(fn(context=X[p], action_context=ac, random_state=seed), q[p], "rounds permuted", rtol=1e-6, atol=1e-8)
                    pa = list(rs.permutation(A))
                    if z == 1:
                        c.close(fn(context=X, action_context=ac[pa], random_state=seed), q[:, pa], "actions permuted", rtol=1e-6, atol=1e-8)


def seeded(c, which):
    """real seeds, library functions: consistency of every field, reproducibility, later batches"""
    from obp.dataset import SyntheticBanditDataset, SyntheticMultiLoggersBanditDataset

    rew, beh = lib()
    for (name, fn, logistic), (bn, bf), nd, seed in itertools.product(rew + [("none", None, 1)], beh + [("none", None)], (0, 2), (1, 12345)):
        rt = "binary" if logistic else "continuous"
        if which == "multi" and bf is not None:
            continue
        for n in (7, 300) if not (seed == 1 and nd == 0) else (7, 300, 1500):
            with c.case("seeded", dataset=which, reward=name, behaviour=bn, deficient=nd, seed=seed, n=n):
                A, dim = 5, 3

                def mk():
                    kw = dict(n_actions=A, dim_context=dim, reward_type=rt, reward_function=fn, n_deficient_actions=nd, random_state=seed)
                    return SyntheticMultiLoggersBanditDataset(betas=[-1.0, 2.0], rhos=[0.4, 0.6], **kw) if which == "multi" else SyntheticBanditDataset(behavior_policy_function=bf, beta=2.0, **kw)

                one, two = mk(), mk()
                prev = None
                for batch in range(2):
                    f, g = one.obtain_batch_bandit_feedback(n_rounds=n), two.obtain_batch_bandit_feedback(n_rounds=n)
                    c.step()
                    for k in f:
                        if isinstance(f[k], np.ndarray):
                            c.same(f[k], g[k], "%s for equal seeds, batch %d" % (k, batch))
                    common(c, f, n, A, dim, np.eye(A))
                    loc = np.asarray(one.calc_expected_reward(f["context"]))
                    if fn is not None:
                        c.close(loc, fn(context=f["context"], action_context=np.eye(A), random_state=seed), "calc_expected_reward")
                    q = loc if rt == "binary" else np.array([[tn_mean(m, 1.0) for m in r] for r in loc])
                    c.close(f["expected_reward"], q, "expected reward", rtol=1e-5, atol=1e-7)
                    logits = bf(context=f["context"], action_context=np.eye(A), random_state=seed) if bf else f["expected_reward"]
                    bt = [2.0] * n if which != "multi" else [(-1.0, 2.0)[s] for s in f["stratum_idx"]]
                    check_policy(c, f["pi_b"][:, :, 0], np.asarray(logits), bt, nd, "behaviour policy")
                    if which == "multi":
                        sh = [np.array([softmax_row([bb * x if f["pi_b"][i, a, 0] > 0 else -np.inf for a, x in enumerate(f["expected_reward"][i])]) for i in range(n)]) for bb in (-1.0, 2.0)]
                        c.close(f["pi_b_avg"][:, :, 0], 0.4 * sh[0] + 0.6 * sh[1], "average behaviour policy")
                        c.close(f["pscore_avg"], (0.4 * sh[0] + 0.6 * sh[1])[np.arange(n), f["action"]], "average propensity")
                    r = np.asarray(f["reward"])
                    if rt == "binary":
                        c.true(np.isin(r, (0, 1)).all(), "binary rewards")
                    else:
                        c.true((r >= 0).all(), "continuous rewards are truncated at zero")
                    if n >= 300:
                        qa = q[np.arange(n), f["action"]]
                        var = qa * (1 - qa) if rt == "binary" else np.ones(n)
                        z = (r - qa).sum() / math.sqrt(var.sum())
                        c.true(abs(z) < 6, "mean reward is %.1f standard deviations off the reported expected reward" % z)
                        c.true(prev is None or not np.array_equal(prev["action"], f["action"]), "consecutive batches have identical actions")
                        c.true(prev is None or not np.allclose(prev["context"], f["context"]), "consecutive batches have identical contexts")
                    prev = f


def streams(c):
    """the random numbers behind contexts, actions and reward noise are distinct (fixed seed list)"""
    from obp.dataset import SyntheticBanditDataset, SyntheticContinuousBanditDataset, SyntheticMultiLoggersBanditDataset, SyntheticBanditDatasetWithActionEmbeds

    zero = lambda context, action_context, random_state=None: np.zeros((context.shape[0], action_context.shape[0]))
    half = lambda context, action_context, random_state=None: np.full((context.shape[0], action_context.shape[0]), 0.5)
    for seed in (0, 1, 2, 3, 12345):
        mks = {"synthetic": lambda: SyntheticBanditDataset(n_actions=2, dim_context=2, reward_type="continuous", reward_function=zero, beta=1.0, random_state=seed),
               "multi": lambda: SyntheticMultiLoggersBanditDataset(n_actions=2, dim_context=2, reward_type="continuous", reward_function=zero, betas=[1.0, 0.0], rhos=[0.5, 0.5], random_state=seed),
               "embed": lambda: SyntheticBanditDatasetWithActionEmbeds(n_actions=2, dim_context=2, reward_function=half, n_cat_per_dim=2, n_cat_dim=3, p_e_a_param_std=0.0, random_state=seed)}
        for name, mk in mks.items():
            with c.case("streams", dataset=name, seed=seed):
                ds = mk()
                f = [ds.obtain_batch_bandit_feedback(n_rounds=64) for _ in range(2)]
                bits = []
                for k, g in enumerate(f):
                    bits.append(("action %d" % k, np.asarray(g["action"]) == 1))
                    if name != "embed":
                        # rewards are |N(0,1)|: recover the uniform behind the noise
                        u = 2 * norm.cdf(np.asarray(g["reward"])) - 1
                        bits.append(("noise %d" % k, u > 0.5))
                    else:
                        bits.append(("reward %d" % k, np.asarray(g["reward"]) == 1))
                        for d in range(3):
                            bits.append(("embedding %d of batch %d" % (d, k), np.asarray(g["action_embed"])[:, d] == 1))
                for (na, a), (nb, b) in itertools.combinations(bits, 2):
                    c.true(not np.array_equal(a, b) and not np.array_equal(a, ~b), "%s and %s are driven by the same random numbers" % (na, nb))
                c.step()
        with c.case("streams", dataset="continuous", seed=seed):
            for bf in (None, lambda context, random_state=None: np.zeros(context.shape[0])):
                ds = SyntheticContinuousBanditDataset(dim_context=1, min_action_value=-1.0, max_action_value=1.0, behavior_policy_function=bf, reward_noise=1.0, random_state=seed)
                f = [ds.obtain_batch_bandit_feedback(n_rounds=64) for _ in range(2)]
                bits = [np.asarray(g["action"]) > 0 for g in f] + [np.asarray(g["reward"]) - np.asarray(g["expected_reward"]) > 0 for g in f]
                for a, b in itertools.combinations(bits, 2):
                    c.true(not np.array_equal(a, b) and not np.array_equal(a, ~b), "actions or noise of different batches are driven by the same random numbers")
    # a round's action does not reveal its own context beyond the reported policy (which is uniform here)
    N = 600
    for name in ("synthetic", "continuous"):
        with c.case("own-context", dataset=name):
            agree = [0, 0]
            for seed in range(N):
                if name == "synthetic":
                    f = SyntheticBanditDataset(n_actions=2, dim_context=2, reward_function=half, beta=1.0, random_state=seed).obtain_batch_bandit_feedback(n_rounds=1)
                    bit = f["action"][0] == 1
                else:
                    f = SyntheticContinuousBanditDataset(dim_context=2, min_action_value=-1.0, max_action_value=1.0, random_state=seed).obtain_batch_bandit_feedback(n_rounds=1)
                    bit = f["action"][0] > 0
                for d in (0, 1):
                    agree[d] += int(bit == (f["context"][0, d] > 0))
            c.step(N)
            for d in (0, 1):
                c.true(abs(agree[d] - N / 2) < 6 * math.sqrt(N) / 2, "action agrees with the sign of context %d in %d of %d seeds" % (d, agree[d], N))


def law(c, which):
    """the probability of a positive reward is the expected reward of the logged action, however the draw is made: the measure of the deciding uniform is located by bisection"""
    A = 3
    for rf, nd, ua, k in itertools.product((0, 1), (0, 1), (0.03, 0.37, 0.66, 0.93), range(5)):
        with c.case("law", dataset=which, reward_function=rf, deficient=nd, ua=ua, k=k):
            rng = WorldRNG()
            rng.program(u=[0.123456, 0.50027, 0.98765], values=VALS)
            ds = make(A, 2, "binary", rf, 0, [1.0] if which == "multi" else 1.0, nd, 0, rng, [1.0] if which == "multi" else None)
            seen = {}

            def draw(ur):
                rng.program(u=[ua, ur], values=VALS[k:] + VALS[:k], gumbels=[((3 * i + k) % 13) * 0.4 for i in range(13)])
                rng.trace, rng.prefix = [], []
                f = ds.obtain_batch_bandit_feedback(n_rounds=1)
                seen["n"], seen["a"], seen["q"] = rng._ui, int(f["action"][0]), float(f["expected_reward"][0, int(f["action"][0])])
                c.step()
                return int(f["reward"][0])

            grid = [i / 16.0 for i in range(16)] + [1 - 1e-12]
            first = [draw(x) for x in grid]
            if seen["n"] != 2:
                continue  # not one uniform for the action and one for the reward
            mass = 0.0
            for (x0, r0), (x1, r1) in zip(zip(grid, first), list(zip(grid, first))[1:]):
                if r0 == r1:
                    mass += r0 * (x1 - x0)
                    continue
                lo, hi = x0, x1
                for _ in range(26):
                    m = (lo + hi) / 2
                    lo, hi = (m, hi) if draw(m) == r0 else (lo, m)
                mass += (lo - x0) if r0 else (x1 - lo)
            c.close(mass, seen["q"], "probability of a positive reward", rtol=0, atol=1e-7)
            c.state((which, rf, nd, ua, k))


def malformed(c):
    from obp import dataset as D

    base = {D.SyntheticBanditDataset: dict(n_actions=3), D.SyntheticMultiLoggersBanditDataset: dict(n_actions=3, betas=[1.0, 2.0], rhos=[0.5, 0.5]), D.SyntheticBanditDatasetWithActionEmbeds: dict(n_actions=3),
            D.SyntheticContinuousBanditDataset: dict(min_action_value=0.0, max_action_value=1.0)}
    faults = [("n_actions", v) for v in (1, 0, -2, 2.0, "3", None)] + [("dim_context", v) for v in (0, -1, 1.5, "1", None)] + [("reward_type", v) for v in ("foo", None, 1)] + [("n_deficient_actions", v) for v in (-1, 3, 1.0, "1")] + \
             [("random_state", None), ("random_state", "x")] + [("reward_std", v) for v in (-1.0, "1", None)] + [("action_context", v) for v in (np.eye(2), np.ones(3), [[1], [2], [3]])]
    for cls, kw in base.items():
        with c.case("wellformed", cls=cls.__name__):
            ds = cls(**kw)
            ds.obtain_batch_bandit_feedback(n_rounds=2)
            c.step()
        for n in (0, -1, 1.5, "3", None):
            with c.case("malformed-n", cls=cls.__name__, n=n):
                c.rejects(lambda: ds.obtain_batch_bandit_feedback(n_rounds=n), "n_rounds=%r" % (n,))
        fl = faults
        if cls is D.SyntheticMultiLoggersBanditDataset:
            fl = fl + [("betas", v) for v in (None, 1.0, [1.0], ["a", 1.0], (1.0, 2.0))] + [("rhos", v) for v in (None, [1.0], [-0.5, 1.5], ["a", 1.0], (0.5, 0.5))]
        elif cls is D.SyntheticBanditDatasetWithActionEmbeds:
            fl = [x for x in fl if x[0] != "action_context"] + [(k, v) for k in ("n_cat_per_dim", "latent_param_mat_dim", "n_cat_dim") for v in (0, -1, 1.5, "2")] + [(k, v) for k in ("n_unobserved_cat_dim", "n_irrelevant_cat_dim") for v in (-1, 4, 0.5)] + [("p_e_a_param_std", v) for v in (-1.0, "a")]
        elif cls is D.SyntheticContinuousBanditDataset:
            fl = [x for x in fl if x[0] in ("dim_context", "random_state")] + [(k, v) for k in ("action_noise", "reward_noise") for v in (-1.0, "a", None)] + [("min_action_value", 1.0), ("min_action_value", 2.0), ("max_action_value", 0.0), ("max_action_value", "a"), ("min_action_value", None)]
        if cls is D.SyntheticBanditDataset:
            fl = fl + [("beta", v) for v in ("a", None)]
        for k, v in fl:
            with c.case("malformed", cls=cls.__name__, arg=k, value=repr(v)):
                c.rejects(lambda: cls(**dict(kw, **{k: v})), "%s=%r" % (k, v))


def jobs(tier):
    deep = tier == "thorough"
    J = [("synth", (A, dim, multi)) for A in ((2, 3, 4)) for dim in ((1, 2, 3) if deep else (1, 2)) for multi in (False, True)]
    J += [("strata", ()), ("extremes", ()), ("truth", ()), ("functions", ()), ("streams", ()), ("malformed", ()), ("law", ("single",)), ("law", ("multi",))]
    J += [("supports", (A, nd, w)) for A in ((2, 3, 4, 5) if deep else (2, 3, 4)) for nd in range(1, A) for w in ("single", "multi")]
    J += [("embed", (rt, rf, nd, cats)) for rt in ("binary", "continuous") for rf in (0, 1) for nd in (0, 2) for cats in ((3, 2, 0, 0), (2, 3, 1, 1), (4, 3, 0, 2), (3, 3, 2, 1), (1, 1, 0, 0), (10, 3, 1, 2), (2, 5, 0, 0))]
    J += [("continuous", (d,)) for d in (1, 2)] + [("seeded", (w,)) for w in ("single", "multi")]
    return J
