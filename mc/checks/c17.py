"""C17: environment simulator under all request and consumption patterns."""
import itertools

import numpy as np

from mc.rng import PathRNG

ID = "C17"
RULE = ("all sequences of environment requests (single round, batches of 1-3) up to the depth, all consumption patterns of a batch (full, partial then restarted, repeated), all environment configurations of the menu; "
        "every round's context, expected rewards, rewards and delays are compared with the configured functions and the draws of an owned random source")
BOUNDS = {"quick": "request depth 4 x 32 configurations, consumption depth 4 on batches of 1-4, ladder of 200-round batches", "thorough": "request depth 5"}
ASSUMPTIONS = ["single-round and batch requests may consume the random source in different orders; reproducibility is claimed for the same seed and request pattern"]


class EnvRNG(PathRNG):
    def __reduce__(self):
        return (EnvRNG, (), PathRNG.__reduce__(self)[2])

    def binomial(self, n, p, size=None):
        p = np.asarray(p, dtype=float)
        if size is not None:
            p = np.broadcast_to(p, size)
        out = np.empty(p.shape, dtype=int)
        f = out.reshape(-1)
        for i, v in enumerate(p.reshape(-1)):
            self.calls.append(("binomial", int(n), float(v)))
            f[i] = int(self._next_u() < v)
        return out if out.shape else int(out)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return np.asarray(loc) + np.asarray(scale) * PathRNG.normal(self, loc, scale, size)


def q_fn(context, action_context, random_state=None, coef_function=None):
    n, A = context.shape[0], action_context.shape[0]
    z = context.sum(axis=1)
    return np.array([[0.5 + 0.4 * np.sin(z[i] * (a + 1) + action_context[a].sum()) for a in range(A)] for i in range(n)])


def delay_fn(n_rounds, n_actions, expected_rewards, **kw):
    return np.floor(10 * np.asarray(expected_rewards)) + np.arange(n_actions)


def build(A, dim, rf, df, ac, rs):
    from obp.simulator.simulator import BanditEnvironmentSimulator

    return BanditEnvironmentSimulator(n_actions=A, dim_context=dim, reward_function=q_fn if rf else None, delay_function=delay_fn if df else None,
                                      action_context=np.arange(1, 2 * A + 1).reshape(A, 2) * 0.3 if ac else None, random_state=rs)


def rounds_of(env, op):
    if op == 0:
        return [env.next_bandit_round()], None
    b = env.next_bandit_round_batch(n_rounds=op)
    return list(b), b


def check_round(c, env, r, A, dim, df, first_ac, what):
    x = np.asarray(r.context, dtype=float).reshape(1, -1)
    c.same(x.shape, (1, dim), "%s: context size" % what)
    c.same(r.n_actions, A, "%s: n_actions" % what)
    c.same(np.asarray(r.action_context), first_ac, "%s: action context" % what)
    er = np.asarray(r.expected_rewards)
    c.same(er.shape, (A,), "%s: expected reward shape" % what)
    if env.reward_function is None:
        c.close(er, env.expected_reward, "%s: expected rewards" % what)
    else:
        c.close(er, q_fn(x, first_ac)[0], "%s: expected rewards of this context" % what)
    c.same(np.asarray(r.rewards).shape, (A,), "%s: reward shape" % what)
    c.true(np.isin(r.rewards, (0, 1)).all(), "%s: rewards are not binary" % what)
    if df:
        c.close(r.round_delays, delay_fn(1, A, er.reshape(1, -1))[0], "%s: delays of this round" % what)
    else:
        c.true(r.round_delays is None, "%s: delays without a delay function" % what)


def patterns(c, cfg, depth):
    A, dim, rf, df, ac = cfg
    for ops in itertools.product((0, 1, 2, 3), repeat=depth):
        with c.case("requests", A=A, dim=dim, reward_function=rf, delay=df, action_context=ac, ops=ops):
            env, twin = build(A, dim, rf, df, ac, 7), build(A, dim, rf, df, ac, 7)
            ac0 = np.array(env.action_context)
            seen = []
            for k, op in enumerate(ops):
                rs, b = rounds_of(env, op)
                ts, _ = rounds_of(twin, op)
                c.step()
                c.same(len(rs), max(op, 1), "rounds handed out by request %d" % k)
                for j, (r, t) in enumerate(zip(rs, ts)):
                    what = "request %d round %d" % (k, j)
                    check_round(c, env, r, A, dim, df, ac0, what)
                    for f in ("context", "rewards", "expected_rewards"):
                        c.same(np.asarray(getattr(r, f)), np.asarray(getattr(t, f)), "%s: %s for equal seeds" % (what, f))
                    seen.append(tuple(np.ravel(r.context)))
                if b is not None:
                    c.same(len(b), op, "len of batch")
                    c.same(np.shape(b.context), (op, dim), "batch context shape")
                    c.same(np.vstack([r.context for r in rs]), np.asarray(b.context), "order of rounds in a batch")
                    c.same(np.vstack([r.rewards for r in rs]), np.asarray(b.rewards), "order of rewards in a batch")
            c.same(len(set(seen)), len(seen), "distinct rounds")
            if rf:
                # the reward function stays the same for the whole life of the environment
                xs = np.array(seen)
                c.close(env.calc_expected_reward(xs), q_fn(xs, ac0), "expected reward of past contexts")


def scripted(c, cfg):
    """every reward is a Bernoulli draw of its own expected reward: programmed draws decide it exactly"""
    A, dim, rf, df, ac = cfg
    for op in (0, 1, 2, 3):
        for u in ([0.1], [0.45], [0.5], [0.55], [0.9], [0.2, 0.8], [0.05, 0.3, 0.52, 0.7, 0.95]):
            for shift in (0, 3):
                vals = [((3 * i + shift) % 7) * 0.35 - 1.0 for i in range(7)]
                with c.case("scripted", A=A, dim=dim, reward_function=rf, op=op, u=u, values=vals):
                    rng = EnvRNG()
                    rng.program(u=[0.3, 0.6, 0.8], values=vals)
                    env = build(A, dim, rf, df, ac, rng)
                    rng.program(u=u, values=vals)
                    rs, _ = rounds_of(env, op)
                    c.step()
                    bins = [x for x in rng.calls if x[0] == "binomial"]
                    n = max(op, 1)
                    c.close(np.vstack([np.ravel(r.context) for r in rs]), np.array([vals[i % 7] for i in range(n * dim)]).reshape(n, dim), "contexts")
                    if len(bins) == n * A:
                        er = np.vstack([r.expected_rewards for r in rs])
                        c.close(np.array([b[2] for b in bins]).reshape(n, A), er, "success probability of each reward")
                        c.same(np.vstack([r.rewards for r in rs]), (np.array([u[i % len(u)] for i in range(n * A)]).reshape(n, A) < er).astype(int), "rewards")
                    for j, r in enumerate(rs):
                        check_round(c, env, r, A, dim, df, np.array(env.action_context), "round %d" % j)


def q_edge(context, action_context, random_state=None, coef_function=None):
    tab = [0.0, 1.0, 1e-4, 0.9999, 0.00049, 0.5, 1 / 3.0, 0.12345678, 0.7654321]
    return np.array([[tab[int(abs(context[i, 0]) * 8 + 2 * a + i) % len(tab)] for a in range(action_context.shape[0])] for i in range(context.shape[0])])


def thresholds(c, A, dim, op, which):
    """each reward flips exactly where its own random number crosses its own expected reward"""
    from obp.simulator.simulator import BanditEnvironmentSimulator

    n = max(op, 1)
    for shift in range(5):
        vals = [((3 * i + shift) % 11) * 0.17 - 0.9 for i in range(11)]

        def run(u):
            rng = EnvRNG()
            rng.program(u=[0.3, 0.6, 0.8], values=vals)
            env = BanditEnvironmentSimulator(n_actions=A, dim_context=dim, reward_function={"sin": q_fn, "edge": q_edge, "none": None}[which], random_state=rng)
            rng.program(u=u, values=vals)
            rs, _ = rounds_of(env, op)
            c.step()
            return np.vstack([r.expected_rewards for r in rs]), np.vstack([r.rewards for r in rs])

        with c.case("thresholds", A=A, dim=dim, op=op, which=which, shift=shift):
            er, _ = run([0.5])
            ok = []
            for flip in (False, True):
                good = True
                for s in (-2e-6, 2e-6):
                    u = np.clip((1 - er if flip else er) + (-s if flip else s), 1e-9, 1 - 1e-9)
                    e2, r = run(u.ravel().tolist())
                    c.close(e2, er, "expected rewards do not depend on the reward draws")
                    want = ((1 - u if flip else u) < er).astype(int)
                    good = good and bool((r == want).all())
                ok.append(good)
            c.true(any(ok), "rewards are not Bernoulli draws of their own expected rewards %s" % er.tolist())


def consumption(c, n):
    """one batch consumed by every sequence of 'take k' / restart / full passes"""
    moves = ["full", "len"] + ["take%d" % k for k in range(0, n + 2)] + ["for%d" % k for k in range(1, n + 1)]
    for seq in itertools.product(moves, repeat=3):
        with c.case("consume", n=n, moves=seq):
            env = build(2, 2, True, True, False, 3)
            b = env.next_bandit_round_batch(n_rounds=n)
            X, R, E, D = (np.array(v) for v in (b.context, b.rewards, b.expected_rewards, b.round_delays))
            for m in seq:
                c.step()
                if m == "full":
                    rs, want = list(b), n
                elif m == "len":
                    c.same(len(b), n, "len")
                    continue
                elif m.startswith("take"):
                    want = min(int(m[4:]), n)
                    it = iter(b)
                    rs = list(itertools.islice(it, int(m[4:])))
                else:
                    rs, want = [], int(m[3:])
                    for r in b:
                        rs.append(r)
                        if len(rs) == want:
                            break
                c.same(len(rs), want, "rounds in a pass")
                for i, r in enumerate(rs):
                    c.same(np.asarray(r.context), X[i], "context of round %d" % i)
                    c.same(np.asarray(r.rewards), R[i], "rewards of round %d" % i)
                    c.same(np.asarray(r.expected_rewards), E[i], "expected rewards of round %d" % i)
                    c.same(np.asarray(r.round_delays), D[i], "delays of round %d" % i)
            c.same(np.array(b.context), X, "batch after consumption")


def ladder(c):
    from obp.dataset import logistic_reward_function, linear_reward_function  # noqa: F401

    for A, dim, n, rf, ac in itertools.product((2, 7), (1, 5), (50, 1030), (True, False), (True, False)):
        with c.case("ladder", A=A, dim=dim, n=n, reward_function=rf, action_context=ac):
            env = build(A, dim, rf, True, ac, 11)
            rs, b = rounds_of(env, n)
            c.step(n)
            c.same((len(rs), len(b)), (n, n), "rounds handed out")
            c.same(np.vstack([r.context for r in rs]), np.asarray(b.context), "order of rounds in a batch")
            for j, r in enumerate(rs):
                check_round(c, env, r, A, dim, True, np.array(env.action_context), "round %d" % j)
            er, rw = np.asarray(b.expected_rewards), np.asarray(b.rewards)
            z = (rw - er).sum() / np.sqrt((er * (1 - er)).sum())
            c.true(abs(z) < 6, "observed rewards are %.1f standard deviations away from their expected value" % z)
    for A, dim in ((3, 2), (40, 12)):
        with c.case("many-requests", A=A, dim=dim):
            env = build(A, dim, True, True, True, 5)
            seen = []
            for j in range(330):
                if j % 11 == 10:
                    rs, _ = rounds_of(env, 4)
                else:
                    rs = [env.next_bandit_round()]
                for r in rs:
                    check_round(c, env, r, A, dim, True, np.array(env.action_context), "request %d" % j)
                    seen.append(tuple(np.ravel(r.context)))
                c.step()
            c.same(len(set(seen)), len(seen), "distinct contexts over many requests")
    for seed in (1, 2, 3):
        with c.case("library-reward-function", seed=seed):
            from obp.simulator.simulator import BanditEnvironmentSimulator

            env = BanditEnvironmentSimulator(n_actions=3, dim_context=2, reward_function=logistic_reward_function, random_state=seed)
            b = env.next_bandit_round_batch(n_rounds=5)
            c.close(env.calc_expected_reward(np.asarray(b.context)), b.expected_rewards, "expected reward of the same contexts")
            env.next_bandit_round()
            c.close(env.calc_expected_reward(np.asarray(b.context)), b.expected_rewards, "expected reward of the same contexts later")
            for f in (env.sample_reward,):
                r = f(np.asarray(b.context))
                c.same(np.shape(r), (5, 3), "sample_reward shape")
                c.true(np.isin(r, (0, 1)).all(), "sample_reward is not binary")


def continuous(c):
    from obp.simulator.simulator import BanditEnvironmentSimulator

    with c.case("continuous-rewards"):
        env = BanditEnvironmentSimulator(n_actions=3, dim_context=2, reward_type="continuous", reward_function=q_fn, random_state=1)
        r = np.asarray(env.next_bandit_round_batch(n_rounds=40).rewards, dtype=float)
        c.step()
        c.true(not np.isin(r, (0, 1)).all(), "reward_type='continuous' still draws binary rewards")


def malformed(c):
    from obp.simulator.simulator import BanditEnvironmentSimulator as B

    bad = [dict(n_actions=1), dict(n_actions=2.5), dict(n_actions="3"), dict(n_actions=3, dim_context=0), dict(n_actions=3, dim_context=1.5), dict(n_actions=3, random_state=None),
           dict(n_actions=3, action_context=np.eye(2)), dict(n_actions=3, action_context=np.ones(3)), dict(n_actions=3, action_context=[[1], [2], [3]])]
    for kw in bad:
        with c.case("malformed", **{"kw": repr(kw)}):
            c.rejects(lambda: B(**kw), "constructor %r" % kw)
    for n in (0, -1, 1.5, "3", None):
        with c.case("malformed-n", n=n):
            c.rejects(lambda: B(n_actions=2).next_bandit_round_batch(n_rounds=n), "n_rounds=%r" % (n,))


def jobs(tier):
    d = 5 if tier == "thorough" else 4
    cfgs = list(itertools.product((2, 3), (1, 2), (0, 1), (0, 1), (0, 1)))
    return [("patterns", (x, d)) for x in cfgs] + [("scripted", (x,)) for x in cfgs] + [("consumption", (n,)) for n in (1, 2, 3, 4)] + [
        ("thresholds", (A, dim, op, w)) for A in (2, 4) for dim in (1, 2) for op in (0, 1, 3, 6) for w in ("sin", "edge", "none")] + [("ladder", ()), ("continuous", ()), ("malformed", ())]
