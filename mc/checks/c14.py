"""C14: delayed-feedback policy simulator, all delay schedules and all split points."""
import itertools
import os

import numpy as np

from mc.rng import PathRNG

ID = "C14"
RULE = ("all assignments of delays (none, 0, 1, 2, 3, and fractional ones) and chosen actions to the rounds of a run, all placements of clear_delayed_queue between rounds, context-free and contextual recording "
        "policies, all ways of feeding the rounds (single rounds, batches, mixtures, the environment's own rounds); the update calls the policy sees in every round are compared with the due list of a reference queue")
BOUNDS = {"quick": "4 rounds x {none,0,1,2,3} x 2 actions (all clear points for 3 rounds), 3 rounds x 8 delay values incl. fractions, all batch splits of 4 rounds; runs of 120 rounds; all delay-sampler outcomes on a grid",
          "thorough": "5 rounds, clear points for 4 rounds"}
ASSUMPTIONS = ["the order of several updates within one round is not specified", "delays are non-negative"]
FREE, CTX = 0, 1


def recorder(kind, script, n_actions):
    from obp.policy.base import BaseContextFreePolicy, BaseContextualPolicy

    Base = BaseContextFreePolicy if kind == FREE else BaseContextualPolicy

    class Rec(Base):
        def select_action(self, context=None):
            self.events.append(("select", None if context is None else np.array(context)))
            a = self.script[self.k % len(self.script)]
            self.k += 1
            return np.array([a, (a + 1) % self.n_actions][: self.len_list])

        def update_params(self, action, reward, context=None):
            self.events.append(("update", int(action), float(reward), None if context is None else np.array(context)))

    kw = dict(n_actions=n_actions, len_list=1 + sum(script) % 2, batch_size=1, random_state=0)
    if kind == CTX:
        kw.update(dim=2)
    p = Rec(**kw)
    p.events, p.script, p.k = [], list(script), 0
    return p


def ctx_of(t):
    return np.array([1.0 + t, -0.5 * t])


def reward_of(t, a):
    return float(100 * (t + 1) + a) + 0.25


def mk_round(t, delays, n_actions):
    from obp.simulator.simulator import BanditRound

    return BanditRound(n_actions=n_actions, context=ctx_of(t), action_context=np.eye(n_actions), rewards=np.array([reward_of(t, a) for a in range(n_actions)]),
                       expected_rewards=np.full(n_actions, 0.5), round_delays=None if delays is None else np.array(delays))


class RefQueue:
    """the specification: (due, round) pairs, released at the end of the first round at or after due"""

    def __init__(self):
        self.pending = []

    def play(self, t, delay):
        self.pending.append((t if delay is None else t + delay, t))
        out = [r for d, r in self.pending if d <= t]
        self.pending = [(d, r) for d, r in self.pending if d > t]
        return out

    def clear(self):
        out = [r for _, r in self.pending]
        self.pending = []
        return out


def check_events(c, kind, events, due, acts, selects, what):
    sel = [e for e in events if e[0] == "select"]
    upd = [e for e in events if e[0] == "update"]
    c.same(len(sel), len(selects), "%s: selections" % what)
    for e, t in zip(sel, selects):
        if kind == CTX:
            c.same(e[1], ctx_of(t).reshape(1, -1), "%s: context given to select_action" % what)
    if selects:
        c.true(events[0][0] == "select", "%s: an update preceded the selection of its round" % what)
    got = sorted((e[2], e[1]) for e in upd)
    exp = sorted((reward_of(t, acts[t]), acts[t]) for t in due)
    if got != exp:
        c.fail("%s: policy was updated with (reward, action) %s, expected %s" % (what, got, exp))
    if kind == CTX:
        for e in upd:
            t = int(e[2] // 100) - 1
            c.same(e[3], ctx_of(t).reshape(1, -1), "%s: context of the update for round %d" % (what, t))


def check_book(c, sim, acts, n, A):
    c.same(int(sim.rounds_played), n, "rounds_played")
    if n == 0:
        return
    c.same(np.asarray(sim.selected_actions), np.array(acts[:n]), "selected_actions")
    c.same(np.asarray(sim.obtained_rewards), np.array([reward_of(t, acts[t]) for t in range(n)]), "obtained_rewards")
    c.same(np.asarray(sim.ground_truth_rewards), np.array([[reward_of(t, a) for a in range(A)] for t in range(n)]), "ground_truth_rewards")
    c.same(np.asarray(sim.contexts), np.array([ctx_of(t) for t in range(n)]), "contexts")
    c.close(sim.total_reward, sum(reward_of(t, acts[t]) for t in range(n)), "total_reward")


def delays_row(d, a, A):
    """the chosen action's delay is d, the others' delays differ"""
    if d is None:
        return None
    return [d if x == a else d + 1 + x for x in range(A)]


def play(c, kind, acts, delays, clears, A):
    """clears: set of indices t -> clear_delayed_queue is called after round t (a count)"""
    from obp.simulator.simulator import BanditPolicySimulator

    p = recorder(kind, acts, A)
    sim = BanditPolicySimulator(policy=p)
    ref = RefQueue()
    for t, (a, d) in enumerate(zip(acts, delays)):
        p.events = []
        sim.step(mk_round(t, delays_row(d, a, A), A))
        c.step()
        check_events(c, kind, p.events, ref.play(t, d), acts, [t], "round %d" % t)
        if t in clears:
            p.events = []
            sim.clear_delayed_queue()
            c.step()
            check_events(c, kind, p.events, ref.clear(), acts, [], "clear after round %d" % t)
            p.events = []
            sim.clear_delayed_queue()
            check_events(c, kind, p.events, [], acts, [], "second clear after round %d" % t)
        c.state((kind, sorted(ref.pending), t))
    check_book(c, sim, list(acts), len(acts), A)
    p.events = []
    sim.clear_delayed_queue()
    check_events(c, kind, p.events, ref.clear(), acts, [], "final clear")


def schedules(c, kind, n, menu, clear_mode, first):
    A = 2
    for delays in itertools.product(menu, repeat=n):
        if delays[0] != first:
            continue
        for acts in itertools.product(range(A), repeat=n):
            sets = [()] if not clear_mode else [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]
            for s in sets:
                with c.case("schedule", _state=False, kind=kind, delays=delays, actions=acts, clears=s):
                    play(c, kind, acts, delays, set(s), A)


def feeding(c, kind):
    """all ways of cutting 4 rounds into single steps and batches; batches with and without delays"""
    from obp.simulator.simulator import BanditPolicySimulator, BanditRounds

    A, n = 2, 4
    comps = [cc for cc in itertools.product((1, 2, 3, 4), repeat=4)]
    comps = {tuple(x for x in itertools.takewhile(lambda v: v > 0, _cut(cc, n))) for cc in comps}
    for comp in sorted(comps):
        for modes in itertools.product(("step", "batch"), repeat=len(comp)):
            for delays in itertools.product((0, 1, 2), repeat=n):
                for nodelay in (None,) + tuple(range(len(comp))):
                    acts = [(t + len(comp)) % 2 for t in range(n)]
                    with c.case("feeding", kind=kind, chunks=comp, modes=modes, delays=delays, chunk_without_delays=nodelay):
                        p = recorder(kind, acts, A)
                        sim = BanditPolicySimulator(policy=p)
                        ref = RefQueue()
                        t = 0
                        for ci, (size, mode) in enumerate(zip(comp, modes)):
                            due, rows = [], []
                            p.events = []
                            for u in range(t, t + size):
                                d = None if ci == nodelay else delays[u]
                                rows.append(delays_row(d, acts[u], A))
                                due += ref.play(u, d)
                            if mode == "step":
                                for u in range(t, t + size):
                                    sim.step(mk_round(u, rows[u - t], A))
                            else:
                                b = BanditRounds(n_rounds=size, n_actions=A, context=np.array([ctx_of(u) for u in range(t, t + size)]), action_context=np.eye(A),
                                                 rewards=np.array([[reward_of(u, a) for a in range(A)] for u in range(t, t + size)]), expected_rewards=np.full((size, A), 0.5),
                                                 round_delays=None if ci == nodelay else np.array(rows, dtype=float))
                                sim.steps(batch_bandit_rounds=b)
                            c.step(size)
                            check_events(c, kind, p.events, due, acts, list(range(t, t + size)), "chunk %d" % ci)
                            t += size
                        check_book(c, sim, acts, n, A)


def _cut(cc, n):
    out, left = [], n
    for v in cc:
        v = min(v, left)
        out.append(v)
        left -= v
    return out


def ladder(c, kind):
    for n in (30, 120):
        for A in (2, 5):
            for pat in range(9):
                acts = [(t * (pat + 2) + t * t) % A for t in range(n)]
                base = [0, 1, 2, 5, 11, 40]
                delays = [[None, 0, 1, 2, 5, 11, 40, n, 2.5][(t * (2 * pat + 1) + t // 7) % 9] if pat % 2 else base[(t * (pat + 1) + t * t // 3) % 6] for t in range(n)]
                if pat >= 6:  # fractional delays: a whole block of rounds falls due, at different times, within the same round
                    blk = {6: 25, 7: 15, 8: 60}[pat]
                    delays = [blk - t % blk - 1 + ((t * 7) % blk + 0.5) / (blk + 1) for t in range(n)]
                with c.case("ladder", kind=kind, n=n, A=A, pattern=pat):
                    play(c, kind, acts, delays, {n // 3, n // 2} if pat in (2, 3) else set(), A)


def long_delays(c, kind):
    """waits far longer than any batch, hundreds of rewards pending at once"""
    n = 640
    for pat in range(4):
        acts = [(t * 3 + t // 5) % 3 for t in range(n)]
        delays = [[300, 1, 257, 0, 128, 511][(t * (pat + 1)) % 6] if pat < 2 else (n - 1 - t if pat == 2 else max(0, 600 - t)) for t in range(n)]
        with c.case("long-delays", kind=kind, n=n, pattern=pat):
            play(c, kind, acts, delays, {400} if pat == 1 else set(), 3)


def environment(c, which):
    """rounds drawn by the simulator itself from an environment, with the real policies"""
    from obp import policy as P
    from obp.dataset import logistic_reward_function
    from obp.simulator.simulator import BanditEnvironmentSimulator, BanditPolicySimulator
    from obp.simulator.delay_sampler import ExponentialDelaySampler

    A, dim = 3, 2
    for seed in (1, 7):
        for delayed in (None, "exp", "weighted"):
            for rf in (None, "logistic"):
                for n in (1, 4, 25):
                    for via in ("step", "steps", "batch"):
                        with c.case("environment", policy=which, seed=seed, delayed=delayed, reward=rf, n=n, via=via):
                            ds = ExponentialDelaySampler(max_scale=3.0, min_scale=1.0, random_state=seed)
                            fn = {None: None, "exp": ds.exponential_delay_function, "weighted": ds.exponential_delay_function_expected_reward_weighted}[delayed]
                            env = BanditEnvironmentSimulator(n_actions=A, dim_context=dim, reward_function=logistic_reward_function if rf else None, delay_function=fn, random_state=seed)
                            kw = dict(n_actions=A, random_state=3)
                            pol = {"eg": lambda: P.EpsilonGreedy(epsilon=0.3, **kw), "ts": lambda: P.BernoulliTS(**kw), "lineg": lambda: P.LinEpsilonGreedy(dim=dim, epsilon=0.3, **kw),
                                   "ucb": lambda: P.LinUCB(dim=dim, epsilon=0.5, **kw), "lints": lambda: P.LinTS(dim=dim, **kw), "log": lambda: P.LogisticUCB(dim=dim, epsilon=0.5, **kw)}[which]()
                            rounds, log = [], []
                            orig_u, orig_n = pol.update_params, env.next_bandit_round

                            def upd(*a, **k):
                                if a:
                                    k.update(zip(("action", "reward", "context"), a))
                                log.append((k["action"], k["reward"], k.get("context")))
                                return orig_u(**k)

                            def nxt():
                                r = orig_n()
                                rounds.append(r)
                                return r

                            pol.update_params = upd
                            env.next_bandit_round = nxt
                            sim = BanditPolicySimulator(policy=pol, environment=env)
                            if via == "batch":
                                b = env.next_bandit_round_batch(n_rounds=n)
                                rounds.extend(list(b))
                                sim.steps(batch_bandit_rounds=b)
                            elif via == "steps":
                                sim.steps(n_rounds=n)
                            else:
                                for _ in range(n):
                                    sim.step()
                            c.step(n)
                            ref = RefQueue()
                            acts = [int(a) for a in sim.selected_actions]
                            c.same(len(acts), n, "rounds selected")
                            due = []
                            for t in range(n):
                                dl = rounds[t].round_delays
                                due += ref.play(t, None if dl is None else float(dl[acts[t]]))
                            self_check(c, log, due, rounds, acts, which)
                            log.clear()
                            sim.clear_delayed_queue()
                            self_check(c, log, ref.clear(), rounds, acts, which)
                            c.same(np.asarray(sim.obtained_rewards), np.array([r.rewards[a] for r, a in zip(rounds, acts)]), "obtained rewards")
                            c.close(sim.total_reward, float(sum(r.rewards[a] for r, a in zip(rounds, acts))), "total reward")
                            c.same(np.asarray(sim.contexts), np.vstack([np.reshape(r.context, (1, -1)) for r in rounds]), "contexts")
                            c.same(np.asarray(sim.ground_truth_rewards), np.vstack([r.rewards for r in rounds]), "ground truth rewards")
                            c.same(int(sim.rounds_played), n, "rounds played")
                            c.same(int(pol.n_trial), n, "observations the policy has seen after clearing")


def self_check(c, log, due, rounds, acts, which):
    ctxl = which in ("lineg", "ucb", "lints", "log")
    key = lambda a, r, x: (int(a), float(r), tuple(np.round(np.ravel(x), 12)) if ctxl else None)
    got = sorted(key(*e) for e in log)
    exp = sorted(key(acts[t], rounds[t].rewards[acts[t]], rounds[t].context) for t in due)
    if got != exp:
        c.fail("updates seen by the policy %s, expected %s" % (got[:4], exp[:4]))
    if ctxl:
        for e in log:
            c.same(np.shape(e[2]), (1, 2), "shape of the context given to the policy")


class ExpRNG(PathRNG):
    """exponential draws return scale * programmed value"""

    def __reduce__(self):
        return (ExpRNG, (), PathRNG.__reduce__(self)[2])

    def standard_exponential(self, size=None):
        return self._bcast("exp", (1.0,), size)

    def exponential(self, scale=1.0, size=None):
        s = np.asarray(scale, dtype=float)
        d = self._bcast("exp", (np.ones(s.shape),), size if size is not None else (s.shape or None))
        return s * d


def sampler(c):
    from obp.simulator.delay_sampler import ExponentialDelaySampler

    vals = (0.0, 0.1, 0.5, 0.999, 1.0, 1.001, 2.5, 7.0)
    for mx, mn in itertools.product((1.0, 2.5, 100.0), (0.5, 1.0, 10.0)):
        for n, A in itertools.product((1, 2, 3), (2, 3)):
            for shift in range(len(vals)):
                v = [vals[(i + shift) % len(vals)] for i in range(len(vals))]
                with c.case("unweighted", mx=mx, n=n, A=A, values=v):
                    rng = ExpRNG()
                    s = ExponentialDelaySampler(max_scale=mx, min_scale=mn, random_state=rng)
                    s.random_.program(values=v)
                    got = s.exponential_delay_function(n_rounds=n, n_actions=A, expected_rewards=np.full((n, A), 0.5))
                    c.close(got, np.array([[np.ceil(mx * v[i])] * A for i in range(n)]), "delays")
                    c.step()
                er = np.array([[((3 * i + 5 * a + shift) % 5) / 4.0 for a in range(A)] for i in range(n)])
                with c.case("weighted", mx=mx, mn=mn, er=er, values=v):
                    rng = ExpRNG()
                    s = ExponentialDelaySampler(max_scale=mx, min_scale=mn, random_state=rng)
                    s.random_.program(values=v)
                    before = er.copy()
                    got = s.exponential_delay_function_expected_reward_weighted(expected_rewards=er, n_rounds=n, n_actions=A)
                    exp = np.array([[np.ceil((mn + (1 - er[i, a]) * (mx - mn)) * v[(i * A + a) % len(v)]) for a in range(A)] for i in range(n)])
                    c.close(got, exp, "delays")
                    c.same(er, before, "expected rewards after the call")
                    c.step()
    for seed in range(4):
        with c.case("sampler-seed", seed=seed):
            one, two = (ExponentialDelaySampler(max_scale=5, min_scale=1, random_state=seed) for _ in range(2))
            for _ in range(3):
                a, b = (s.exponential_delay_function(n_rounds=6, n_actions=3) for s in (one, two))
                c.same(a, b, "delays for equal seeds")
                c.true((a == np.floor(a)).all() and (a >= 0).all(), "delays are whole and non-negative")
                c.true((a == a[:, :1]).all(), "delays equal across actions")


def jobs(tier):
    deep = tier == "thorough"
    J = []
    menu = (None, 0, 1, 2, 3)
    for kind in (FREE, CTX):
        for f in menu:
            J.append(("schedules", (kind, 5 if deep else 4, menu, False, f)))
            J.append(("schedules", (kind, 4 if deep else 3, menu, True, f)))
        for f in (None, 0, 0.5, 1, 1.5, 2, 2.25, 10):
            J.append(("schedules", (kind, 3, (None, 0, 0.5, 1, 1.5, 2, 2.25, 10), False, f)))
        J.append(("feeding", (kind,)))
        J.append(("ladder", (kind,)))
        J.append(("long_delays", (kind,)))
    for w in ("eg", "ts", "lineg", "ucb", "lints", "log"):
        J.append(("environment", (w,)))
    J.append(("sampler", ()))
    return J
