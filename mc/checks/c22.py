"""C22: synthetic slate logs; every slate and click outcome of the sampling procedure is enumerated."""
import functools
import itertools
import math

import numpy as np

from mc.core import Frozen
from mc.rng import BranchRNG, weighted_paths

ID = "C22"
RULE = ("every slate the sampler can draw and every reward vector it can draw afterwards is explored by branching on the dataset's own random source; path probabilities, reported propensities, expected rewards and "
        "ground-truth values are compared with a reference that enumerates slates and click histories; propensity helpers are evaluated on every slate of every listed logit pattern")
BOUNDS = {"quick": "2-4 actions x 2-3 slots (factorizable up to 3x4), 5 reward structures x 2 decays x 3 click models, 6 logit patterns, 1-3 rounds; ladder: 130/200 actions, two evaluation batches", "thorough": "up to 5 actions x 4 slots, finer eta and epsilon menus"}
ASSUMPTIONS = ["expected slot rewards are stored in half precision by design: they are compared within 4e-3; probabilities are compared to 1e-9",
               "clip_logit_value below the largest logit is a documented approximation and is not compared"]


# ---- reference ---------------------------------------------------------
def slates(A, L, fact):
    return list(itertools.product(range(A), repeat=L)) if fact else list(itertools.permutations(range(A), L))


def law(logit, L, fact):
    """probability of every slate under sequential softmax sampling"""
    A = len(logit)
    out = {}
    for s in slates(A, L, fact):
        p, left = 1.0, list(range(A))
        for a in s:
            m = max(logit[b] for b in left)
            z = sum(math.exp(logit[b] - m) for b in left)
            p *= math.exp(logit[a] - m) / z
            if not fact:
                left.remove(a)
        out[s] = p
    return out


def marg(lw, s):
    L = len(s)
    return ([lw[s]] * L, [sum(p for t, p in lw.items() if t[k] == s[k]) for k in range(L)], [sum(p for t, p in lw.items() if t[: k + 1] == s[: k + 1]) for k in range(L)])


def ref_slot_rewards(base, s, structure, decay, W, kind):
    """expected slot rewards before the click model; base = f(x, .) row"""
    g = (lambda v: math.log(v / (1 - v))) if kind == "binary" else (lambda v: v)
    L = len(s)
    h = {"exponential": lambda d: math.exp(-d), "inverse": lambda d: 1.0 / (d + 1)}[decay]
    out = []
    for k in range(L):
        v = g(base[s[k]])
        js = [] if structure == "independent" else [j for j in range(L) if (j < k if structure.startswith("cascade") else j != k)]
        for j in js:
            v += W[s[k]][s[j]] if structure.endswith("additive") else -h(abs(k - j)) * g(base[s[j]])
        out.append(1 / (1 + math.exp(-v)) if kind == "binary" else max(v, 0.0))
    return out


def click_params(click, eta, L):
    th = [(1.0 / (k + 1)) ** eta for k in range(L)]
    return (th if click == "pbm" else [1.0] * L), (th if click == "cascade" else [1.0] * L)


def click_law(e, click, eta):
    """probability of every click vector given pre-click-model slot rewards"""
    L = len(e)
    exam, attr = click_params(click, eta, L)
    out = {}
    for r in itertools.product((0, 1), repeat=L):
        p, d = 1.0, 1.0
        for k in range(L):
            if k and r[k - 1]:
                d *= attr[k]
            q = d * exam[k] * e[k]
            p *= q if r[k] else 1 - q
        out[r] = p
    return out


def trunc_mean(m):
    a = -m
    return m + math.exp(-a * a / 2) / math.sqrt(2 * math.pi) / (0.5 * math.erfc(a / math.sqrt(2)))


def slate_value(e, kind, click, eta):
    if kind == "continuous":
        return sum(trunc_mean(v) for v in e)
    return sum(p * sum(r) for r, p in click_law(e, click, eta).items())


# ---- worlds ------------------------------------------------------------
TABLE = np.array([[0.5, 0.2, 0.75, 0.9, 0.35], [0.1, 0.6, 0.45, 0.3, 0.8], [0.65, 0.25, 0.15, 0.55, 0.7]])
LOGITS = [[0.0, 0.0, 0.0, 0.0, 0.0], [1.0, 0.0, -1.0, 2.0, 0.5], [0.0, 3.0, 0.5, -2.0, 1.0], [-4.0, 4.0, 0.0, 1.0, 2.0], [10.0, 9.0, 9.5, 8.0, 9.9], [0.3, 0.1, 0.2, 0.4, 0.0],
          [0.0, -120.0, 40.0, -200.0, -30.0], [10.0, -60.0, 5.0, -35.0, 8.0]]
LOGITS = [r + [v * 0.5 for v in r] for r in LOGITS]
NM = len(LOGITS)


def base_binary(context, action_context, random_state=None):
    i = (np.floor(np.abs(context[:, 0]) * 4).astype(int)) % 3
    return TABLE[i][:, : action_context.shape[0]] if action_context.shape[0] <= 5 else np.abs(np.sin(np.arange(action_context.shape[0])[None, :] * 1.7 + i[:, None])) * 0.9 + 0.05


def base_cont(context, action_context, random_state=None):
    return base_binary(context, action_context) * 4.0 - 0.5


def beh(context, action_context, random_state=None, menu=1):
    i = (np.floor(np.abs(context[:, 0]) * 4).astype(int)) % 2
    rows = np.array([LOGITS[menu], LOGITS[(menu + 1) % NM]])
    return rows[i][:, : action_context.shape[0]]


def make(A, L, fact, kind="binary", structure="independent", decay="exponential", click=None, eta=1.0, base=True, menu=None, seed=7, dim=2):
    from obp.dataset import SyntheticSlateBanditDataset

    return SyntheticSlateBanditDataset(n_unique_action=A, len_list=L, dim_context=dim, reward_type=kind, reward_structure=structure, decay_function=decay, click_model=click, eta=eta,
                                       base_reward_function=(base_binary if kind == "binary" else base_cont) if base else None,
                                       behavior_policy_function=None if menu is None else functools.partial(beh, menu=menu), is_factorizable=fact, random_state=seed)


def weights(ds, structure):
    return np.asarray(ds.action_interaction_weight_matrix) if structure.endswith("additive") else None


def base_rows(ds, context, kind, base, L, seed):
    if base:
        return None
    return np.asarray(ds.sample_contextfree_expected_reward(random_state=seed))


def slot_rewards(ds, x, s, kind, structure, decay, base, seed=7):
    """reference pre-click slot rewards of slate s in context row x"""
    if not base:
        T = np.asarray(ds.sample_contextfree_expected_reward(random_state=seed))
        return [float(T[a, k]) for k, a in enumerate(s)]
    f = (base_binary if kind == "binary" else base_cont)(x.reshape(1, -1), ds.action_context)[0]
    return ref_slot_rewards(f, s, structure, decay, weights(ds, structure), kind)


# ---- jobs --------------------------------------------------------------
def sampling(c, A, L, fact):
    """all slates the sampler can draw; n rounds explored independently"""
    for menu in [None] + list(range(NM)):
        for flag in (True, False):
            for clip in ((None, 700.0, 20.0) if flag else (None,)):
                if clip and menu is not None and clip < max(max(LOGITS[menu]), max(LOGITS[(menu + 1) % NM])):
                    continue
                with c.case("sampling", A=A, L=L, fact=fact, menu=menu, item_position=flag, clip=clip):
                    ds = make(A, L, fact, menu=menu)
                    rng = ds.random_ = BranchRNG()
                    for n in (1, 2):
                        if n == 2 and (flag is False or clip or len(slates(A, L, fact)) ** 2 > 600):
                            continue
                        rows = np.array([LOGITS[menu or 0], LOGITS[((menu or 0) + 1) % NM] if menu is not None else LOGITS[0]])[:n, :A]
                        laws = [law(list(r), L, fact) for r in rows]
                        mg = [{s: marg(lw, s) for s in lw} for lw in laws]
                        seen = {}
                        for w, (act, casc, ps, item) in weighted_paths(rng, lambda: ds.sample_action_and_obtain_pscore(behavior_policy_logit_=rows.copy(), n_rounds=n, return_pscore_item_position=flag, clip_logit_value=clip)):
                            c.step()
                            act = np.asarray(act)
                            c.same(act.shape, (n * L,), "shape of action")
                            ss = tuple(tuple(int(a) for a in act[i * L:(i + 1) * L]) for i in range(n))
                            for i, s in enumerate(ss):
                                c.true(s in laws[i], "slate %r cannot be drawn" % (s,))
                            seen[ss] = seen.get(ss, 0.0) + w
                            sl = lambda v, i: np.asarray(v)[i * L:(i + 1) * L]  # noqa: E731
                            for i, s in enumerate(ss):
                                a, b, d = mg[i][s]
                                c.close(sl(ps, i), a, "slate propensity of %r" % (s,))
                                c.close(sl(casc, i), d, "cascade propensity of %r" % (s,))
                                if flag:
                                    c.close(sl(item, i), b, "item-position propensity of %r" % (s,), rtol=1e-8)
                                else:
                                    c.true(item is None, "item-position propensity not requested")
                        for ss in itertools.product(*[list(lw) for lw in laws]):
                            p = math.prod(laws[i][s] for i, s in enumerate(ss))
                            c.close(seen.get(ss, 0.0), p, "probability with which %r is drawn" % (ss,), rtol=1e-8)


def helpers(c, A, L, fact):
    """evaluation-policy propensities of every slate"""
    S = slates(A, L, fact)
    ds = make(A, L, fact)
    n = len(S)
    for m in range(NM):
        lw = law(LOGITS[m][:A], L, fact)
        act = np.array(S).flatten()
        lg = np.tile(np.array(LOGITS[m][:A]), (n, 1))
        for flag, clip in ((True, None), (False, None), (True, 50.0)):
            with c.case("eval-logit", A=A, L=L, fact=fact, menu=m, flag=flag, clip=clip):
                fz = Frozen(act, lg)
                ps, item, casc = ds.obtain_pscore_given_evaluation_policy_logit(act, lg, return_pscore_item_position=flag, clip_logit_value=clip)
                c.step()
                fz.check(c)
                mm = [marg(lw, s) for s in S]
                c.close(ps, np.concatenate([x[0] for x in mm]), "slate propensities", atol=1e-300)
                c.close(casc, np.concatenate([x[2] for x in mm]), "cascade propensities", atol=1e-300)
                if flag:
                    c.close(item, np.concatenate([x[1] for x in mm]), "item-position propensities", rtol=1e-8, atol=1e-13)
                else:
                    c.true(item is None, "item-position propensity not requested")
        with c.case("action-dist", A=A, L=L, fact=fact, menu=m):
            fz = Frozen(act, lg)
            d = np.asarray(ds.calc_evaluation_policy_action_dist(act, lg))
            c.step()
            fz.check(c)
            c.same(d.shape, (n * L * A,), "shape of the action distribution")
            d = d.reshape(n, L, A)
            for i, s in enumerate(S):
                for k in range(L):
                    left = [a for a in range(A) if fact or a not in s[:k]]
                    z = np.exp(np.array(LOGITS[m][:A]) - max(LOGITS[m][:A]))
                    exp = [z[a] / z[left].sum() if a in left else 0.0 for a in range(A)]
                    c.close(d[i, k], exp, "distribution at position %d given %r" % (k, s[:k]), atol=1e-12)
    # mixed logits per round (alignment of rounds)
    with c.case("eval-mixed", A=A, L=L, fact=fact):
        lg = np.array([LOGITS[i % NM][:A] for i in range(n)])
        act = np.array(S).flatten()
        ps, item, casc = ds.obtain_pscore_given_evaluation_policy_logit(act, lg)
        c.step()
        mm = [marg(law(list(lg[i]), L, fact), s) for i, s in enumerate(S)]
        for got, j, w in ((ps, 0, "slate"), (item, 1, "item-position"), (casc, 2, "cascade")):
            c.close(got, np.concatenate([x[j] for x in mm]), w + " propensities", rtol=1e-8)


def greedy(c, A, L, fact, eps):
    """optimal / anti-optimal / random evaluation policies"""
    S = slates(A, L, fact)
    for kind in ("binary", "continuous"):
        ds = make(A, L, fact, kind=kind)
        for x0 in (0.1, 0.3, 0.6):
            ctx = np.full((len(S), 2), x0)
            f = (base_binary if kind == "binary" else base_cont)(ctx[:1], ds.action_context)[0]
            uni = 1.0 / len(S)
            for typ in ("optimal", "anti-optimal", "random"):
                with c.case("greedy", A=A, L=L, fact=fact, eps=eps, kind=kind, x=x0, typ=typ):
                    act = np.array(S).flatten()
                    fz = Frozen(act, ctx)
                    ps, item, casc = ds.generate_evaluation_policy_pscore(typ, ctx, act, epsilon=eps)
                    c.step()
                    fz.check(c)
                    order = sorted(range(A), key=lambda a: -f[a] if typ == "optimal" else f[a])
                    top = tuple([order[0]] * L if fact else order[:L])
                    e = 1.0 if typ == "random" else eps
                    lw = {s: e * uni + (1 - e) * (s == top) for s in S}
                    mm = [marg(lw, s) for s in S]
                    for got, j, w in ((ps, 0, "slate"), (item, 1, "item-position"), (casc, 2, "cascade")):
                        c.close(got, np.concatenate([x[j] for x in mm]), "%s propensities" % w)
                    if typ == "random":
                        again = ds.generate_evaluation_policy_pscore(typ, ctx)
                        for a, b in zip(again, (ps, item, casc)):
                            c.close(a, b, "random policy without actions")


def world(c, A, L, fact, kind, structure, decay, click, eta, base):
    """complete log space of one round: slates and rewards"""
    with c.case("log-space", A=A, L=L, fact=fact, kind=kind, structure=structure, decay=decay, click=click, eta=eta, base=base):
        ds = make(A, L, fact, kind, structure, decay, click, eta, base, menu=1)
        rng = ds.random_ = BranchRNG()
        exam, _ = click_params(click, eta, L)
        tot, mean = 0.0, 0.0
        val = {}
        for w, f in weighted_paths(rng, lambda: ds.obtain_batch_bandit_feedback(n_rounds=1)):
            c.step()
            x = np.asarray(f["context"])
            c.close(x, [[0.25, -1.0]], "context drawn from the dataset's random source")
            s = tuple(int(a) for a in f["action"])
            lg = beh(x, ds.action_context, menu=1)[0]
            lw = law(list(lg), L, fact)
            e = slot_rewards(ds, x[0], s, kind, structure, decay, base)
            c.close(f["pscore"], marg(lw, s)[0], "pscore")
            c.close(f["pscore_item_position"], marg(lw, s)[1], "pscore_item_position", rtol=1e-8)
            c.close(f["pscore_cascade"], marg(lw, s)[2], "pscore_cascade")
            c.same([int(v) for v in f["slate_id"]], [0] * L, "slate_id")
            c.same([int(v) for v in f["position"]], list(range(L)), "position")
            c.same((int(f["n_rounds"]), int(f["n_unique_action"])), (1, A), "n_rounds, n_unique_action")
            r = np.asarray(f["reward"], dtype=float)
            c.same(r.shape, (L,), "shape of reward")
            rep = np.asarray(f["expected_reward_factual"], dtype=float)
            if kind == "binary":
                c.close(rep, [exam[k] * e[k] for k in range(L)], "expected_reward_factual", rtol=0, atol=4e-3)
                c.true(set(r.tolist()) <= {0.0, 1.0}, "binary rewards")
                pr = click_law(e, click, eta)[tuple(int(v) for v in r)]
                c.close(w, lw[s] * pr, "probability of slate %r with rewards %r" % (s, r.tolist()), rtol=0, atol=6e-3)
            else:
                c.close(rep, [trunc_mean(v) for v in e], "expected_reward_factual", rtol=3e-3, atol=3e-3)
                c.close(w, lw[s], "probability of slate %r" % (s,), rtol=1e-8)
                c.true((r >= 0).all(), "continuous rewards are non-negative")
                # the programmed uniform is 1/2: the reward is the median of the truncated normal
                for k in range(L):
                    c.close(_phi(r[k] - e[k]), 1 - 0.5 * _phi(e[k]), "median reward", rtol=0, atol=4e-3)
            tot += w
            mean += w * r.sum() if kind == "binary" else w * rep.sum()
            val[s] = slate_value(e, kind, click, eta)
        c.close(tot, 1.0, "total probability", rtol=1e-8)
        exp = sum(lw[s] * val[s] for s in lw)
        c.close(mean, exp, "average reward over the log space", rtol=4e-3, atol=4e-3)
        got = ds.calc_ground_truth_policy_value(context=x, evaluation_policy_logit_=np.array([lg]))
        c.step()
        c.close(float(got), exp, "ground-truth value of the logging policy", rtol=3e-3, atol=3e-3)
        # several rounds, another policy
        for n in (2, 3):
            X = np.array([[0.3, 0.0], [0.6, 1.0], [0.1, -1.0]])[:n]
            lg = np.array([LOGITS[i + 1][:A] for i in range(n)])
            fz = Frozen(X, lg)
            got = ds.calc_ground_truth_policy_value(context=X, evaluation_policy_logit_=lg)
            c.step()
            fz.check(c)
            exp = 0.0
            for i in range(n):
                for s, p in law(list(lg[i]), L, fact).items():
                    exp += p * slate_value(slot_rewards(ds, X[i], s, kind, structure, decay, base), kind, click, eta) / n
            c.close(float(got), exp, "ground-truth value over %d rounds" % n, rtol=3e-3, atol=3e-3)


def _phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def batches(c, seed):
    """real random source: layout, reproducibility, several batches"""
    from obp.dataset import linear_behavior_policy_logit, linear_reward_function, logistic_reward_function, SyntheticSlateBanditDataset

    for (A, L, fact), structure, kind, n in itertools.product(((2, 2, False), (4, 3, False), (3, 4, True), (5, 2, False)), ("cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"), ("binary", "continuous"), (1, 2, 7)):
        with c.case("batch", A=A, L=L, fact=fact, structure=structure, kind=kind, n=n, seed=seed):
            def mk():
                return SyntheticSlateBanditDataset(n_unique_action=A, len_list=L, dim_context=3, reward_type=kind, reward_structure=structure, base_reward_function=logistic_reward_function if kind == "binary" else linear_reward_function,
                                                   behavior_policy_function=linear_behavior_policy_logit, is_factorizable=fact, random_state=seed)
            ds = mk()
            fs = [ds.obtain_batch_bandit_feedback(n_rounds=n) for _ in range(2)]
            ds2 = mk()
            gs = [ds2.obtain_batch_bandit_feedback(n_rounds=n) for _ in range(2)]
            c.step(4)
            for f, g in zip(fs, gs):
                for k in f:
                    if isinstance(f[k], np.ndarray):
                        c.same(np.asarray(f[k]), np.asarray(g[k]), "same seed, same %s" % k)
            c.true(not np.array_equal(fs[0]["context"], fs[1]["context"]), "two batches have the same contexts")
            for f in fs:
                c.same(np.asarray(f["slate_id"]), np.repeat(np.arange(n), L), "slate_id")
                c.same(np.asarray(f["position"]), np.tile(np.arange(L), n), "position")
                c.same(np.asarray(f["context"]).shape, (n, 3), "context shape")
                lg = linear_behavior_policy_logit(f["context"], ds.action_context, random_state=seed)
                base = (logistic_reward_function if kind == "binary" else linear_reward_function)(f["context"], ds.action_context, random_state=seed)
                for i in range(n):
                    s = tuple(int(a) for a in f["action"][i * L:(i + 1) * L])
                    lw = law(list(lg[i]), L, fact)
                    c.true(s in lw, "slate %r" % (s,))
                    for k, v in zip(("pscore", "pscore_item_position", "pscore_cascade"), marg(lw, s)):
                        c.close(f[k][i * L:(i + 1) * L], v, k, rtol=1e-8)
                    e = ref_slot_rewards(base[i], s, structure, "exponential", weights(ds, structure), kind)
                    if kind == "continuous":
                        e = [trunc_mean(v) for v in e]
                    c.close(np.asarray(f["expected_reward_factual"][i * L:(i + 1) * L], dtype=float), e, "expected_reward_factual", rtol=4e-3, atol=4e-3)
                r = np.asarray(f["reward"], dtype=float)
                c.true(set(r.tolist()) <= {0.0, 1.0} if kind == "binary" else (r >= 0).all(), "reward type")
                c.close(ds.calc_on_policy_policy_value(f["reward"], f["slate_id"]), r.sum() / n, "on-policy value")
            if kind == "continuous" and n == 7:
                c.true(len(set(np.round(np.concatenate([f["reward"] for f in fs]), 9).tolist())) > n * L, "reward noise repeats across slots or batches")


def ladder(c, which):
    if which == "many":
        for A in (127, 128, 129, 130, 200, 300):
            with c.case("many-actions", A=A):
                ds = make(A, 2, True, menu=None)
                acts = np.array([[a, (a * 7 + 3) % A] for a in range(A)]).flatten()
                X = np.full((A, 2), 0.3)
                from obp.dataset.synthetic_slate import action_interaction_reward_function
                got = action_interaction_reward_function(context=X, action_context=ds.action_context, action=acts, base_reward_function=base_binary, reward_type="binary", reward_structure="independent",
                                                         action_interaction_weight_matrix=np.zeros((2, 2)), len_list=2)
                c.step()
                f = base_binary(X[:1], ds.action_context)[0]
                c.close(np.asarray(got, dtype=float), f[acts].reshape(-1, 2), "expected rewards with %d actions" % A, rtol=0, atol=4e-3)
                if A <= 200:
                    lg = np.zeros((1, A))
                    lg[0, :5] = 5.0
                    lg[0, A - 1] = 7.0
                    v = ds.calc_ground_truth_policy_value(context=X[:1], evaluation_policy_logit_=lg)
                    c.step()
                    p = np.exp(lg[0] - 7) / np.exp(lg[0] - 7).sum()
                    c.close(float(v), 2 * (p * f).sum(), "ground truth with %d actions" % A, rtol=3e-3)
    else:
        for n in (1, 100, 620):
            with c.case("two-batches", n=n):
                ds = make(5, 5, True)
                ds8 = ds
                X = np.abs(np.sin(np.arange(n)[:, None] * np.array([[1.3, 0.7]]))) * 2
                lg = np.array([LOGITS[i % 6][:5] for i in range(n)])
                v = ds8.calc_ground_truth_policy_value(context=X, evaluation_policy_logit_=lg)
                c.step()
                P = np.exp(lg - lg.max(1, keepdims=True))
                P /= P.sum(1, keepdims=True)
                c.close(float(v), 5 * (P * base_binary(X, ds.action_context)).sum(1).mean(), "ground truth over %d rounds" % n, rtol=3e-3)
        with c.case("many-batches", n=900):
            ds = make(5, 5, True)
            n = 900  # 3125 slates x 5 slots x 900 rounds > 10^7
            X = np.abs(np.sin(np.arange(n)[:, None] * np.array([[1.3, 0.7]]))) * 2
            lg = np.array([LOGITS[i % 6][:5] for i in range(n)])
            v = ds.calc_ground_truth_policy_value(context=X, evaluation_policy_logit_=lg)
            c.step()
            P = np.exp(lg - lg.max(1, keepdims=True))
            P /= P.sum(1, keepdims=True)
            c.close(float(v), 5 * (P * base_binary(X, ds.action_context)).sum(1).mean(), "ground truth over %d rounds" % n, rtol=3e-3)
    with c.case("on-policy"):
        ds = make(3, 2, False)
        for n in (1, 2, 3, 4):
            for sid in itertools.product((0, 1, 5), repeat=n):
                for r in itertools.product((0.0, 1.0, 2.5), repeat=n):
                    got = ds.calc_on_policy_policy_value(np.array(r), np.array(sid))
                    c.step()
                    c.close(got, sum(r) / len(set(sid)), "on-policy value of %r %r" % (sid, r))


def noise(c):
    """continuous rewards: stratified uniforms through the sampler give the reported mean"""
    for m0 in (0.0, 0.3, 1.0, 3.0):
        for L in (2, 3):
            with c.case("continuous-noise", mean=m0, L=L):
                ds = make(4, L, False, kind="continuous")
                n = 2000
                rng = ds.random_ = BranchRNG()
                rng.u = [(i + 0.5) / n for i in range(n)]
                r = np.asarray(ds.sample_reward_given_expected_reward(np.full((n, L), m0)), dtype=float)
                c.step()
                c.same(r.shape, (n, L), "shape")
                for k in range(L):
                    c.close(r[:, k].mean(), trunc_mean(m0), "mean reward at slot %d" % k, rtol=0, atol=3e-3)


def wide(c, L):
    """many slots: every pair of slots interacts with its own distance"""
    from obp.dataset.synthetic_slate import action_interaction_reward_function

    A, n = 5, 6
    X = np.array([[0.1, 0.0], [0.3, 0.0], [0.6, 0.0]] * 2)
    acts = np.array([[(i * 3 + k * k + k) % A for k in range(L)] for i in range(n)])
    for structure, decay, kind in itertools.product(("cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"), ("exponential", "inverse"), ("binary", "continuous")):
        with c.case("wide", L=L, structure=structure, decay=decay, kind=kind):
            f = base_binary if kind == "binary" else base_cont
            ds = make(A, L, True, kind, structure, decay)
            M = W = np.asarray(ds.action_interaction_weight_matrix)
            fz = Frozen(X, acts, M)
            got = action_interaction_reward_function(context=X, action_context=np.eye(A), action=acts.ravel(), base_reward_function=f, reward_type=kind, reward_structure=structure, action_interaction_weight_matrix=M, len_list=L, is_enumerated=False, random_state=1)
            c.step()
            fz.check(c)
            exp = [ref_slot_rewards(f(X[i:i + 1], np.eye(A))[0], list(acts[i]), structure, decay, W, kind) for i in range(n)]
            c.close(np.asarray(got, dtype=float), exp, "expected slot rewards", rtol=4e-3, atol=4e-3)


def magnitudes(c):
    """expected rewards of any size are reported and sampled as they are"""
    from obp.dataset import SyntheticSlateBanditDataset

    for sc, structure in itertools.product((1e-3, 1.0, 150.0, 3000.0), ("independent", "cascade_decay", "standard_additive")):
        with c.case("magnitudes", scale=sc, structure=structure):
            fn = lambda context, action_context, random_state=None: base_binary(context, action_context) * sc  # noqa: E731
            ds = SyntheticSlateBanditDataset(n_unique_action=4, len_list=3, dim_context=2, reward_type="continuous", reward_structure=structure, base_reward_function=fn, behavior_policy_function=functools.partial(beh, menu=1), random_state=3)
            f = ds.obtain_batch_bandit_feedback(n_rounds=40)
            c.step()
            E = []
            for i in range(40):
                s = [int(a) for a in f["action"][3 * i:3 * i + 3]]
                b = fn(f["context"][i:i + 1], ds.action_context)[0]
                E += ref_slot_rewards(b, s, structure, "exponential", weights(ds, structure), "continuous")
            E = np.array(E)
            c.close(np.asarray(f["expected_reward_factual"], dtype=float), [trunc_mean(v) for v in E], "expected_reward_factual", rtol=4e-3, atol=4e-3)
            r = np.asarray(f["reward"], dtype=float)
            c.true((np.abs(r - E) <= 6.5 + 4e-3 * np.abs(E)).all() and (r >= 0).all(), "a reward is more than 6.5 standard deviations from its mean")
            lg = beh(f["context"], ds.action_context, menu=2)
            v = ds.calc_ground_truth_policy_value(context=f["context"], evaluation_policy_logit_=lg)
            c.step()
            exp = 0.0
            for i in range(40):
                b = fn(f["context"][i:i + 1], ds.action_context)[0]
                for s, p in law(list(lg[i]), 3, False).items():
                    exp += p * sum(trunc_mean(z) for z in ref_slot_rewards(b, s, structure, "exponential", weights(ds, structure), "continuous")) / 40
            c.close(float(v), exp, "ground-truth value", rtol=4e-3, atol=4e-3)


def malformed(c):
    from obp.dataset import SyntheticSlateBanditDataset as D

    good = dict(n_unique_action=4, len_list=3)
    with c.case("wellformed"):
        ds = D(**good)
        ds.obtain_batch_bandit_feedback(n_rounds=2)
    for k, v in [("n_unique_action", x) for x in (1, 0, 2.0, "4", None)] + [("len_list", x) for x in (1, 0, 5, 2.0, "3", None)] + [("dim_context", x) for x in (0, -1, 1.5, None)] + [("reward_type", "x"), ("reward_structure", "x"), ("decay_function", "x"), ("click_model", "x")]:
        with c.case("malformed", arg=k, value=repr(v)):
            c.rejects(lambda: D(**dict(good, **{k: v})), "%s=%r" % (k, v))
    with c.case("malformed-click"):
        for cm in ("pbm", "cascade"):
            c.rejects(lambda: D(**dict(good, click_model=cm, reward_type="continuous")), "continuous rewards with a click model")
            for eta in (-1.0, "1", None):
                c.rejects(lambda: D(**dict(good, click_model=cm, eta=eta)), "eta=%r" % (eta,))
    with c.case("malformed-calls"):
        for n in (0, -1, 1.5, None, "2"):
            c.rejects(lambda: ds.obtain_batch_bandit_feedback(n_rounds=n), "n_rounds=%r" % (n,))
        A, lg = np.array([0, 1, 2, 1, 2, 3]), np.zeros((2, 4))
        ds.obtain_pscore_given_evaluation_policy_logit(A, lg)
        for a, b in ((A[:5], lg), (A[:3], lg), (A, lg[:1]), (A, lg[:, :3]), (A.reshape(2, 3), lg), (A, lg[0]), (list(A), lg), (A, lg.tolist())):
            c.rejects(lambda: ds.obtain_pscore_given_evaluation_policy_logit(a, b), "propensities of inconsistent inputs")
        for a, b in ((A[:5], lg), (A[:3], lg), (A, lg[:1]), (A, lg[:, :3]), (A.reshape(2, 3), lg), (list(A), lg)):
            c.rejects(lambda: ds.calc_evaluation_policy_action_dist(a, b), "distribution of inconsistent inputs")
        X = np.zeros((2, 1))
        for a, b in ((X, lg[:1]), (X[:1], lg), (X, lg[:, :3]), (np.zeros((2, 2)), lg), (X[0], lg), (X, lg[0])):
            c.rejects(lambda: ds.calc_ground_truth_policy_value(context=a, evaluation_policy_logit_=b), "ground truth of inconsistent inputs")


SHAPES = [(2, 2, False), (3, 2, False), (3, 3, False), (4, 2, False), (4, 3, False), (2, 2, True), (2, 3, True), (3, 2, True), (3, 3, True)]


def jobs(tier):
    deep = tier == "thorough"
    sh = SHAPES + ([(4, 4, False), (5, 3, False), (3, 4, True), (4, 3, True)] if deep else [(2, 4, True)])
    tall = [(2, 5, True), (5, 5, False), (2, 7, True)] + ([(6, 5, False), (6, 6, False), (3, 6, True)] if deep else [])
    J = [("helpers", s) for s in tall] + [("sampling", s) for s in tall[:2]] + [("sampling", s) for s in sh] + [("helpers", s) for s in sh]
    J += [("greedy", s + (e,)) for s in sh + tall[:3] for e in ((0.0, 0.3, 0.5, 1.0) if deep else (0.0, 0.3, 1.0))]
    for (A, L, fact) in ((3, 2, False), (4, 3, False), (2, 3, True)) + (((3, 3, True), (3, 3, False)) if deep else ()):
        for st in ("cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"):
            for dec in (("exponential", "inverse") if st.endswith("decay") else ("exponential",)):
                for cl, eta in ((None, 1.0), ("pbm", 1.0), ("pbm", 0.5), ("cascade", 1.0), ("cascade", 3.0)):
                    J.append(("world", (A, L, fact, "binary", st, dec, cl, eta, True)))
                J.append(("world", (A, L, fact, "continuous", st, dec, None, 1.0, True)))
        for cl in (None, "pbm", "cascade"):
            J.append(("world", (A, L, fact, "binary", "independent", "exponential", cl, 1.0, False)))
        J.append(("world", (A, L, fact, "continuous", "cascade_additive", "exponential", None, 1.0, False)))
    J += [("batches", (s,)) for s in (1, 12345)] + [("ladder", (w,)) for w in ("many", "batches")] + [("noise", ()), ("magnitudes", ()), ("malformed", ())] + [("wide", (L,)) for L in (2, 5, 9, 16)]
    return J
