"""C15: replay simulation and Monte-Carlo ground truth of online policies, all logs x selection scripts."""
import copy
import itertools

import numpy as np

ID = "C15"
RULE = ("all logs (action, position) up to the length bound x all selection scripts of a recording policy, context-free and contextual, with and without positions; the updates the policy receives, the returned distribution and the log itself "
        "are compared with the definition; real online policies are replayed against an independent loop on an identically seeded copy")
BOUNDS = {"quick": "len_list 1: 2 actions 4 rounds, 3 actions 3 rounds; len_list 2: 3 actions 2 rounds (all ordered pairs); ladder of up to 1030 rounds x 7 real policies", "thorough": "one round more"}
ASSUMPTIONS = []


def recorder(ctxl, script, A, L):
    from obp.policy.base import BaseContextFreePolicy, BaseContextualPolicy

    Base = BaseContextualPolicy if ctxl else BaseContextFreePolicy

    class Rec(Base):
        def select_action(self, context=None):
            self.events.append(("select", None if context is None else np.array(context)))
            a = self.script[self.k % len(self.script)]
            if self.k >= len(self.script):  # beyond its script (state carried over from another run) the policy acts differently
                a = [(v + 1) % self.n_actions for v in a]
            self.k += 1
            return np.array(a)

        def update_params(self, action, reward, context=None):
            self.events.append(("update", int(np.ravel(action)[0]), float(np.ravel(reward)[0]), None if context is None else np.array(context)))

    kw = dict(n_actions=A, len_list=L, batch_size=1 + len(script) % 3, random_state=0)
    if ctxl:
        kw.update(dim=2)
    p = Rec(**kw)
    p.events, p.script, p.k = [], list(script), 0
    return p


def mk_log(actions, positions, A, style=0):
    n = len(actions)
    return dict(n_rounds=n, n_actions=A, action=np.array(actions, dtype=np.int32 if style == 1 else int), position=None if positions is None else np.array(positions),
                reward=np.array([1.5 + 2 * i for i in range(n)], dtype=float), pscore=None if style == 2 else np.full(n, 0.5),
                context=np.array([[1.0 + i, -0.5 * i] if style != 3 else [1.0 + i // 2, 0.0] for i in range(n)]), expected_reward=np.array([[10.0 * i + a + 0.1 for a in range(A)] for i in range(n)]))


def expect_events(script, actions, positions, ctxl, log):
    out = []
    for t, a in enumerate(actions):
        x = log["context"][t].reshape(1, -1)
        out.append(("select", x if ctxl else None))
        pos = 0 if positions is None else positions[t]
        if script[t][pos] == a:
            out.append(("update", a, float(log["reward"][t]), x if ctxl else None))
    return out


def cmp_events(c, got, exp):
    c.same(len(got), len(exp), "number of policy calls")
    for k, (g, e) in enumerate(zip(got, exp)):
        c.same(g[:-1], e[:-1], "policy call %d" % k)
        if e[-1] is None:
            c.true(g[-1] is None, "policy call %d got a context" % k)
        else:
            c.same(g[-1], e[-1], "context of policy call %d" % k)


def replay(c, ctxl, A, L, n, first):
    from mc.core import Frozen
    from obp.simulator.replay import run_bandit_replay

    lists = list(itertools.permutations(range(A), L))
    for actions in itertools.product(range(A), repeat=n):
        if actions[0] != first:
            continue
        for positions in [None] + list(itertools.product(range(L), repeat=n)):
            for k, script in enumerate(itertools.product(lists, repeat=n)):
                log = mk_log(actions, positions, A, style=k % 4)
                with c.case("replay", contextual=ctxl, actions=actions, positions=positions, script=script):
                    p = recorder(ctxl, script, A, L)
                    fr = Frozen(log)
                    d = run_bandit_replay(bandit_feedback=log, policy=p)
                    c.step(n)
                    fr.check(c, "the log")
                    cmp_events(c, p.events, expect_events(script, actions, positions, ctxl, log))
                    e = np.zeros((n, A, L))
                    for t in range(n):
                        for q in range(L):
                            e[t, script[t][q], q] = 1
                    c.same(np.asarray(d, dtype=float), e, "action distribution")


def wide(c, ctxl, L):
    """many actions: indices that agree modulo a power of two or as a prefix must not be confused"""
    from obp.simulator.replay import run_bandit_replay

    A = 700
    vals = (0, 1, 44, 128, 256, 257, 300, 512, 699)
    for a0, a1, b0, b1 in itertools.product(vals, vals, vals, (1, 300, 699)):
        script = [(b0, (b0 + 256) % A)[:L], (b1, (b1 + 128) % A)[:L]]
        for positions in [None] + [x for x in ((0, 1), (1, 1)) if L == 2]:
            log = mk_log((a0, a1), positions, A)
            with c.case("wide", contextual=ctxl, actions=(a0, a1), positions=positions, script=script):
                p = recorder(ctxl, script, A, L)
                d = run_bandit_replay(bandit_feedback=log, policy=p)
                c.step(2)
                cmp_events(c, p.events, expect_events(script, (a0, a1), positions, ctxl, log))
                c.true(all(d[t, script[t][q], q] == 1 for t in range(2) for q in range(L)) and float(np.abs(d).sum()) == 2 * L, "action distribution")


def policies(dim, A, L, batch, seed):
    from obp import policy as P

    kw = dict(n_actions=A, len_list=L, batch_size=batch, random_state=seed)
    return [("Random", P.Random(**kw)), ("EpsilonGreedy", P.EpsilonGreedy(epsilon=0.4, **kw)), ("BernoulliTS", P.BernoulliTS(**kw)), ("LinEpsilonGreedy", P.LinEpsilonGreedy(dim=dim, epsilon=0.4, **kw)),
            ("LinUCB", P.LinUCB(dim=dim, epsilon=0.7, **kw)), ("LinTS", P.LinTS(dim=dim, **kw)), ("LogisticUCB", P.LogisticUCB(dim=dim, epsilon=0.5, **kw))]


def real(c, which, L):
    from obp.simulator.replay import run_bandit_replay
    from obp.policy.policy_type import PolicyType

    for n in (1, 2, 17, 60, 1030):
        for A in (3, 6):
            for batch in (1, 4):
                for seed in (0, 5):
                    rs = np.random.RandomState(seed + n)
                    log = mk_log([(7 * t + t * t) % A for t in range(n)], [(t * 3 + t // 2) % L for t in range(n)], A)
                    log["reward"] = rs.binomial(1, 0.5, n).astype(float)
                    log["context"] = rs.normal(size=(n, 3))
                    logs = [(A, log), (A - 1, log)]
                    if n in (17, 60):
                        # users who come back: runs of equal contexts, alternating contexts, all rounds alike
                        logs += [(A, dict(log, context=log["context"][idx])) for idx in (np.arange(n) // 3, np.arange(n) % 2, np.zeros(n, int))]
                    for var, (top, log) in enumerate(logs):
                        # top < A: the largest action never occurs in the log
                        lg = dict(log, action=np.minimum(log["action"], top - 1))
                        with c.case("real", policy=which, n=n, A=A, L=L, batch=batch, seed=seed, top=top, variant=var):
                            name, p = policies(3, A, L, batch, seed)[which]
                            q = copy.deepcopy(p)
                            d = run_bandit_replay(bandit_feedback=lg, policy=p)
                            c.step(n)
                            e = np.zeros((n, A, L))
                            matched = 0
                            for t in range(n):
                                x = lg["context"][t:t + 1]
                                s = q.select_action() if q.policy_type == PolicyType.CONTEXT_FREE else q.select_action(x)
                                for j in range(L):
                                    e[t, s[j], j] = 1
                                if s[lg["position"][t]] == lg["action"][t]:
                                    matched += 1
                                    if q.policy_type == PolicyType.CONTEXT_FREE:
                                        q.update_params(action=lg["action"][t], reward=lg["reward"][t])
                                    else:
                                        q.update_params(action=lg["action"][t], reward=lg["reward"][t], context=x)
                            c.same(np.asarray(d, dtype=float), e, "action distribution of %s" % name)
                            c.same(int(p.n_trial), matched, "observations fed to %s" % name)
                            c.same(np.asarray(p.action_counts), np.asarray(q.action_counts), "action counts")


def ground_truth(c, ctxl, A, L, n):
    from mc.core import Frozen
    from obp.simulator.simulator import calc_ground_truth_policy_value

    lists = list(itertools.permutations(range(A), L))
    for positions in [None] + list(itertools.product(range(L), repeat=n)):
        for script in itertools.product(lists, repeat=n):
            for n_sim in (1, 3):
                log = mk_log([0] * n, positions, A, style=n_sim)
                with c.case("ground-truth", contextual=ctxl, positions=positions, script=script, n_sim=n_sim):
                    p = recorder(ctxl, script, A, L)
                    shared = p.events = _Shared()
                    calls = []

                    def sampler(context, action):
                        calls.append((np.array(context), np.array(action)))
                        return np.array([1000.0 + len(calls)])

                    fr = Frozen(log)
                    v = calc_ground_truth_policy_value(bandit_feedback=log, reward_sampler=sampler, policy=p, n_sim=n_sim)
                    c.step(n * n_sim)
                    fr.check(c, "the log")
                    acts = [script[t][0 if positions is None else positions[t]] for t in range(n)]
                    c.close(v, sum(log["expected_reward"][t, acts[t]] for t in range(n)) / n, "policy value")
                    c.same(p.k, 0, "selections made on the caller's policy object")
                    exp, k = [], 0
                    for _ in range(n_sim):
                        for t in range(n):
                            x = log["context"][t].reshape(1, -1)
                            k += 1
                            exp.append(("select", x if ctxl else None))
                            exp.append(("update", acts[t], 1000.0 + k, x if ctxl else None))
                    cmp_events(c, list(shared), exp)
                    c.same(len(calls), n * n_sim, "reward draws")
                    for k, (x, a) in enumerate(calls):
                        c.same(x, log["context"][k % n].reshape(1, -1), "context of reward draw %d" % k)
                        c.same(a, np.array([acts[k % n]]), "action of reward draw %d" % k)


def real_gt(c, which, L):
    """ground truth of real policies (fresh or already trained) against an independent loop over deep copies"""
    from obp.policy.policy_type import PolicyType
    from obp.simulator.simulator import calc_ground_truth_policy_value

    for n, A, batch, seed, pre, n_sim in itertools.product((1, 5, 40), (3,), (1, 3), (0, 5), (0, 4), (1, 2, 5)):
        rs = np.random.RandomState(seed + n)
        log = mk_log([0] * n, [(t * 3 + t // 2) % L for t in range(n)], A)
        log["context"] = rs.normal(size=(n, 3))
        with c.case("real-gt", policy=which, n=n, A=A, L=L, batch=batch, seed=seed, pre=pre, n_sim=n_sim):
            name, p = policies(3, A, L, batch, seed)[which]

            def upd(q, a, r, x):
                if q.policy_type == PolicyType.CONTEXT_FREE:
                    q.update_params(action=a, reward=r)
                else:
                    q.update_params(action=a, reward=r, context=x)

            for k in range(pre):
                upd(p, k % A, float(k % 2), np.array([[1.0, k, -1.0]]))
            before = copy.deepcopy(p)
            cnt = [0]

            def sampler(context, action):
                cnt[0] += 1
                return (cnt[0] * 7 // 3 + int(np.ravel(action)[0])) % 2

            v = calc_ground_truth_policy_value(bandit_feedback=log, reward_sampler=sampler, policy=p, n_sim=n_sim)
            c.step(n * n_sim)
            c.same(int(p.n_trial), int(before.n_trial), "observations of the caller's policy")
            cnt[0] = 0
            tot = 0.0
            for _ in range(n_sim):
                q = copy.deepcopy(before)
                for t in range(n):
                    x = log["context"][t:t + 1]
                    s = q.select_action() if q.policy_type == PolicyType.CONTEXT_FREE else q.select_action(x)
                    a = int(s[log["position"][t]])
                    tot += log["expected_reward"][t, a]
                    upd(q, a, sampler(x, np.array([a])), x)
            c.close(v, tot / (n * n_sim), "policy value of %s" % name)


class _Shared(list):
    """event list shared by deep copies of the policy"""

    def __deepcopy__(self, memo):
        return self


def jobs(tier):
    x = 1 if tier == "thorough" else 0
    J = []
    for ctxl in (0, 1):
        J += [("replay", (ctxl, 2, 1, 4 + x, f)) for f in range(2)] + [("replay", (ctxl, 3, 1, 3 + x, f)) for f in range(3)]
        J += [("replay", (ctxl, 3, 2, 2 + x, f)) for f in range(3)] + [("replay", (ctxl, 4, 3, 1, f)) for f in range(4)]
        J += [("ground_truth", (ctxl, 2, 1, 4)), ("ground_truth", (ctxl, 3, 2, 2 + x)), ("ground_truth", (ctxl, 3, 1, 3))]
    J += [("wide", (x, L)) for x in (0, 1) for L in (1, 2)]
    J += [("real", (w, L)) for w in range(7) for L in (1, 2)] + [("real_gt", (w, L)) for w in range(7) for L in (1, 2)]
    return J
