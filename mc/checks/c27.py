"""C27: neural policy learners and their Q-function estimators, against exact small training histories."""
import itertools
import os

os.environ["TQDM_DISABLE"] = "1"

import numpy as np

from mc import nnref
from mc.core import Frozen
from mc.rng import WorldRNG

ID = "C27"
RULE = ("small training runs of the neural policy learners (discrete and continuous) and of their reward models are enumerated over objectives, solvers, activations, layer shapes, logs, batch schedules and validation splits; "
        "the resulting policy is compared with a double-precision reference that ascends the documented off-policy value estimate from the same initial parameters along every admissible mini-batch schedule")
BOUNDS = {"quick": "2-4 rounds, 2-3 actions, 0-2 hidden layers, 1-3 updates, all mini-batch orders and validation splits for up to 4 rounds, Gumbel grids for rankings", "thorough": "more logs, layer shapes and two-epoch schedules"}
ASSUMPTIONS = ["n_iter_no_change is set so high that no stopping rule fires (the stopping rule has its own cases)", "single precision is compared at 2e-4", "variance regularisation is not exercised (its weight is 0)"]
TOL = dict(rtol=2e-3, atol=2e-4)
BIG = 10**6
CTX = np.array([[0.5, -1.0], [1.0, 0.25], [-0.75, 0.5], [0.25, 1.5]])


def T(v):
    import torch

    return torch.tensor(np.asarray(v, dtype=float))


def log_of(n, A, acts, h):
    r = np.array([[1.0, 0.0, 0.5, 2.0][(i * (h + 1) + h) % 4] for i in range(n)])
    ps = np.array([[0.5, 0.25, 0.8, 1.0][(i + 2 * h) % 4] for i in range(n)])
    return CTX[[(i + h) % 4 for i in range(n)]], np.array(acts), r, ps


def schedules(n, b):
    """admissible mini-batch sequences of one epoch with shuffling (batches are sets)"""
    seen = {}
    for perm in itertools.permutations(range(n)):
        s = tuple(tuple(sorted(perm[i:i + b])) for i in range(0, n, b))
        seen[s] = s
    return list(seen.values())


def discrete_objective(kind, X, a, r, ps, lam, reg, activation, q=None):
    import torch

    X, r, ps = T(X), T(r), T(ps)
    a = torch.tensor(a)
    qv = None if q is None else q(X)

    def obj(params, b):
        b = list(b)
        pi = torch.softmax(nnref.forward(params, X[b], activation), dim=1)
        v = nnref.discrete_value(kind, pi, a[b], r[b], ps[b], lam, None if qv is None else qv[b]).mean()
        w = pi[torch.arange(len(b)), a[b]] / ps[b]
        return v - reg * torch.log(w.mean())

    return obj


def q_objective(X, a, r, activation, cont=False):
    import torch

    X, r = T(X), T(r)
    aa = None if cont else torch.tensor(a)

    def obj(params, b):
        b = list(b)
        out = nnref.forward(params, X[b], activation)
        pred = out[:, 0] if cont else out[torch.arange(len(b)), aa[b]]
        return -((r[b] - pred) ** 2).mean()

    return obj


LAM = {"snipw": (None, 0.25), "ipw-os": (None, 2.0), "ipw-subgauss": (None, 0.5)}
DEF_LAM = {"snipw": 0.0, "ipw-os": 10000.0, "ipw-subgauss": 0.001}


def discrete(c, kind, solver, n, A, tier):
    import torch
    from obp.policy import NNPolicyLearner

    torch.set_num_threads(1)
    acts_all = list(itertools.product(range(A), repeat=n))
    for k, acts in enumerate(acts_all):
        for j, (activation, hidden) in enumerate(itertools.product(("identity", "logistic", "tanh", "relu", "elu"), ((), (3,), (2, 2)))):
            if tier == "quick" and n == 3 and (j + k) % 3:
                continue
            h = (k + j) % 4
            lam = LAM.get(kind, (None,))[(k + j // 2) % len(LAM.get(kind, (None,)))]
            reg = (0.0, 0.7)[(k + j) % 2]
            alpha = (0.0, 0.05)[(k // 2 + j) % 2]
            use_ps = (k + 2 * j) % 5 != 0
            iters = 1 + (k + j) % 3
            nest = bool((k + j) % 2)
            mom = (0.9, 0.5)[(k // 3) % 2]
            eps = (1e-3, 1e-2)[j % 2]
            betas = ((0.9, 0.999), (0.5, 0.8))[(k + j // 3) % 2]
            lr = {"sgd": 0.3, "adagrad": 0.2, "adam": 0.1}[solver]
            with c.case("discrete", kind=kind, solver=solver, A=A, actions=acts, activation=activation, hidden=hidden, h=h, lam=lam, reg=reg, alpha=alpha, pscore=use_ps, iters=iters):
                X, a, r, ps = log_of(n, A, acts, h)
                qh = dict(hidden_layer_size=(2,), activation="tanh", solver=("sgd", "adam", "adagrad")[k % 3], learning_rate_init=0.1, max_iter=2, epsilon=1e-3, n_iter_no_change=BIG, alpha=0.01)
                m = NNPolicyLearner(n_actions=A, dim_context=2, off_policy_objective=kind, lambda_=lam, policy_reg_param=reg, hidden_layer_size=hidden, activation=activation, solver=solver, alpha=alpha,
                                    learning_rate_init=lr, max_iter=iters, random_state=k + 11 * j, momentum=mom, nesterovs_momentum=nest, epsilon=eps, beta_1=betas[0], beta_2=betas[1], n_iter_no_change=BIG,
                                    q_func_estimator_hyperparams=dict(qh) if kind in ("dm", "dr") else None)
                p0 = nnref.params_of(m.nn_model)
                c.same([tuple(p.shape) for p in p0[::2]], list(zip(list(hidden) + [A], [2] + list(hidden))), "layer shapes")
                q = None
                if kind in ("dm", "dr"):
                    q0 = nnref.params_of(m.q_func_estimator.nn_model)
                    qp = nnref.train(q0, q_objective(X, a, r, "tanh"), [range(n)] * 2, nnref.Opt(qh["solver"], 0.1, 0.01, eps=1e-3))
                    q = lambda Z, qp=qp: nnref.forward(qp, Z, "tanh").detach()
                fz = Frozen(X, a, r, ps)
                probs0 = m.predict_proba(CTX)
                c.close(probs0[:, :, 0], torch.softmax(nnref.forward(p0, T(CTX), activation), dim=1).numpy(), "initial policy", **TOL)
                m.fit(context=X, action=a, reward=r, pscore=ps if use_ps else None)
                c.step(iters)
                fz.check(c)
                obj = discrete_objective(kind, X, a, r, ps if use_ps else np.full(n, 1.0 / A), DEF_LAM.get(kind) if lam is None else lam, reg, activation, q)
                ps1 = nnref.train(p0, obj, [range(n)] * iters, nnref.Opt(solver, lr, alpha, mom, nest, betas[0], betas[1], eps))
                exp = torch.softmax(nnref.forward(ps1, T(CTX), activation), dim=1).numpy()
                got = m.predict_proba(CTX)
                c.same(got.shape, (4, A, 1), "predict_proba shape")
                c.close(got[:, :, 0], exp, "policy after %d updates" % iters, **TOL)
                c.close(got.sum(axis=1), np.ones((4, 1)), "probabilities sum", rtol=1e-5)
                d = m.predict(CTX)
                for i in range(4):
                    c.true(sorted(d[i, :, 0]) == [0.0] * (A - 1) + [1.0] and got[i, d[i, :, 0].argmax(), 0] == got[i, :, 0].max(), "predict of round %d: %s with probabilities %s" % (i, d[i, :, 0], got[i, :, 0]))
                if q is not None:
                    c.close(m.q_func_estimator.predict(torch.from_numpy(CTX).float()).detach().numpy(), q(T(CTX)).numpy(), "estimated rewards", **TOL)


def one_of(c, got, cands, what):
    best = min(float(np.abs(np.asarray(got, dtype=float) - e).max()) for e in cands)
    c.true(best < 3e-4, "%s: matches none of the %d admissible schedules (closest %.3g): %s" % (what, len(cands), best, np.asarray(got).tolist()))


def sched(c, kind, solver, n, b, shuffle, epochs, seeds):
    """mini-batch schedules: the outcome is that of some permutation of the log cut into batches, per epoch"""
    import torch
    from obp.policy import NNPolicyLearner

    torch.set_num_threads(1)
    A = 2
    lr = {"sgd": 0.5, "adagrad": 0.3, "adam": 0.2}[solver]
    for acts in itertools.product(range(A), repeat=n):
        for seed in range(seeds):
            with c.case("schedule", kind=kind, solver=solver, actions=acts, batch=b, shuffle=shuffle, epochs=epochs, seed=seed):
                X, a, r, ps = log_of(n, A, acts, seed % 4)
                r = r + 0.25
                m = NNPolicyLearner(n_actions=A, dim_context=2, off_policy_objective=kind, hidden_layer_size=(), solver=solver, learning_rate_init=lr, max_iter=epochs, batch_size=b, shuffle=shuffle,
                                    random_state=seed, epsilon=1e-2, n_iter_no_change=BIG, alpha=0.0)
                p0 = nnref.params_of(m.nn_model)
                m.fit(context=X, action=a, reward=r, pscore=ps)
                got = m.predict_proba(CTX)[:, :, 0]
                c.true(np.isfinite(got).all(), "policy is not finite: %s" % got)
                one = schedules(n, b) if shuffle else [tuple(tuple(range(i, min(n, i + b))) for i in range(0, n, b))]
                obj = discrete_objective(kind, X, a, r, ps, DEF_LAM.get(kind), 0.0, "relu")
                cands = []
                for path in itertools.product(one, repeat=epochs):
                    c.step()
                    pe = nnref.train(p0, obj, [x for e in path for x in e], nnref.Opt(solver, lr, 0.0, eps=1e-2))
                    cands.append(torch.softmax(nnref.forward(pe, T(CTX), "relu"), dim=1).numpy())
                one_of(c, got, cands, "policy")


def split(c, n, frac, cont):
    """early stopping trains on the log minus exactly the validation share"""
    import torch
    from obp.policy import ContinuousNNPolicyLearner, NNPolicyLearner

    torch.set_num_threads(1)
    v = max(int(n * frac), 1)
    if v >= n:
        return
    for seed in range(12):
        with c.case("validation-split", n=n, fraction=frac, continuous=cont, seed=seed):
            acts = [(i * (seed + 1)) % 2 for i in range(n)]
            X, a, r, ps = log_of(n, 2, acts, seed % 4)
            r = r + 0.25
            kw = dict(dim_context=2, hidden_layer_size=(), solver="sgd", learning_rate_init=0.5, max_iter=1, random_state=seed, early_stopping=True, validation_fraction=frac, n_iter_no_change=BIG, alpha=0.0)
            if cont:
                a = np.array([0.3 * i - 0.4 for i in range(n)])
                m = ContinuousNNPolicyLearner(pg_method="ipw", bandwidth=0.7, **kw)
            else:
                m = NNPolicyLearner(n_actions=2, off_policy_objective="ipw", **kw)
            p0 = nnref.params_of(m.nn_model)
            m.fit(context=X, action=a, reward=r, pscore=ps)
            cands = []
            for held in itertools.combinations(range(n), v):
                c.step()
                rows = [i for i in range(n) if i not in held]
                obj = cont_objective("ipw", X, a, r, ps, 0.7, None, None, "relu") if cont else discrete_objective("ipw", X, a, r, ps, None, 0.0, "relu")
                pe = nnref.train(p0, obj, [rows], nnref.Opt("sgd", 0.5, 0.0))
                out = nnref.forward(pe, T(CTX), "relu")
                cands.append(out[:, 0].numpy() if cont else torch.softmax(out, dim=1).numpy())
            one_of(c, m.predict(CTX) if cont else m.predict_proba(CTX)[:, :, 0], cands, "policy")


def cont_objective(kind, X, a, r, ps, h, space, qp, activation):
    import torch

    X, a, r, ps = T(X), T(a), T(r), T(ps)
    lo, hi = space if space else (None, None)

    def obj(params, b):
        b = list(b)
        act = nnref.forward(params, X[b], activation)[:, 0]
        qf = None if qp is None else (lambda z: nnref.forward(qp, torch.cat([X[b], z[:, None]], 1), "tanh")[:, 0])
        return nnref.continuous_value(kind, act, a[b], r[b], ps[b], h, qf, lo, hi).mean()

    return obj


def continuous(c, kind, solver, n, tier):
    import torch
    from obp.policy import ContinuousNNPolicyLearner

    torch.set_num_threads(1)
    grid = (-0.8, 0.2, 1.1)
    for k, av in enumerate(itertools.product(grid, repeat=n)):
        for j, (activation, hidden) in enumerate(itertools.product(("identity", "logistic", "tanh", "relu", "elu"), ((), (3,), (2, 2)))):
            if tier == "quick" and n == 3 and (j + k) % 4:
                continue
            h = (k + j) % 4
            space = (None, (-0.1, 0.1), (-5, 5), (0.05, 2.0))[(k + j) % 4]
            bw = (0.5, 1, 2.0)[(k + j // 2) % 3]
            iters = 1 + (k + j) % 3
            use_ps = (k + 2 * j) % 5 != 0
            alpha = (0.0, 0.05)[(k // 2 + j) % 2]
            lr = {"sgd": 0.3, "adagrad": 0.2, "adam": 0.1}[solver]
            with c.case("continuous", kind=kind, solver=solver, actions=av, activation=activation, hidden=hidden, h=h, space=space, bandwidth=bw, iters=iters, pscore=use_ps, alpha=alpha):
                X, _, r, ps = log_of(n, 2, [0] * n, h)
                r = r - 0.5
                a = np.array(av)
                qh = dict(hidden_layer_size=(2,), activation="tanh", solver=("sgd", "adam", "adagrad")[k % 3], learning_rate_init=0.1, max_iter=2, epsilon=1e-3, n_iter_no_change=BIG, alpha=0.01)
                m = ContinuousNNPolicyLearner(dim_context=2, pg_method=kind, bandwidth=bw, output_space=space, hidden_layer_size=hidden, activation=activation, solver=solver, alpha=alpha, learning_rate_init=lr,
                                              max_iter=iters, random_state=k + 7 * j, epsilon=1e-2, n_iter_no_change=BIG, q_func_estimator_hyperparams=dict(qh) if kind != "ipw" else None)
                p0 = nnref.params_of(m.nn_model)
                qp = None
                if kind != "ipw":
                    q0 = nnref.params_of(m.q_func_estimator.nn_model)
                    qp = nnref.train(q0, q_objective(np.c_[X, a], None, r, "tanh", cont=True), [range(n)] * 2, nnref.Opt(qh["solver"], 0.1, 0.01, eps=1e-3))
                fz = Frozen(X, a, r, ps)
                m.fit(context=X, action=a, reward=r, pscore=ps if use_ps else None)
                c.step(iters)
                fz.check(c)
                obj = cont_objective(kind, X, a, r, ps if use_ps else np.ones(n), bw, space, qp, activation)
                p1 = nnref.train(p0, obj, [range(n)] * iters, nnref.Opt(solver, lr, alpha, eps=1e-2))
                exp = nnref.forward(p1, T(CTX), activation)[:, 0].numpy()
                if space is not None:
                    exp = np.clip(exp, *space)
                got = m.predict(CTX)
                c.close(got, exp, "actions after %d updates" % iters, **TOL)
                if qp is not None:
                    z = torch.tensor([0.1, -0.2, 0.3, 0.9])
                    q = nnref.forward(qp, torch.cat([T(CTX), z.double()[:, None]], 1), "tanh")[:, 0].numpy()
                    c.close(m.q_func_estimator.predict(torch.from_numpy(CTX).float(), z).detach().numpy(), q, "estimated rewards", **TOL)


def cont_sched(c, kind, n, b, shuffle, seeds):
    import torch
    from obp.policy import ContinuousNNPolicyLearner

    torch.set_num_threads(1)
    for seed in range(seeds):
        for av in itertools.product((-0.8, 0.4), repeat=n):
            with c.case("continuous-schedule", kind=kind, actions=av, batch=b, shuffle=shuffle, seed=seed):
                X, _, r, ps = log_of(n, 2, [0] * n, seed % 4)
                r = r + 0.25
                m = ContinuousNNPolicyLearner(dim_context=2, pg_method=kind, bandwidth=0.6, hidden_layer_size=(), solver="sgd", learning_rate_init=0.5, max_iter=1, batch_size=b, shuffle=shuffle, random_state=seed, n_iter_no_change=BIG, alpha=0.0)
                p0 = nnref.params_of(m.nn_model)
                m.fit(context=X, action=np.array(av), reward=r, pscore=ps)
                one = schedules(n, b) if shuffle else [tuple(tuple(range(i, min(n, i + b))) for i in range(0, n, b))]
                cands = []
                for path in one:
                    c.step()
                    p1 = nnref.train(p0, cont_objective(kind, X, av, r, ps, 0.6, None, None, "relu"), path, nnref.Opt("sgd", 0.5, 0.0))
                    cands.append(nnref.forward(p1, T(CTX), "relu")[:, 0].numpy())
                one_of(c, m.predict(CTX), cands, "actions")


def ranking(c, A, L, vals):
    from obp.policy import NNPolicyLearner

    for seed in range(3):
        with c.case("ranking", A=A, L=L, seed=seed):
            m = NNPolicyLearner(n_actions=A, len_list=L, dim_context=2, off_policy_objective="ipw", hidden_layer_size=(3,), random_state=seed, max_iter=1, learning_rate_init=0.5)
            f = m.predict_proba(CTX[:2])[:, :, 0].astype(float)
            for tau in (1, 0.2, 4.0):
                for g in itertools.product(vals, repeat=A):
                    draws = [[g[(a + i) % A] + 0.0137 * a + 0.0071 * i for a in range(A)] for i in range(2)]
                    rng = WorldRNG()
                    rng.program(gumbels=[v for row in draws for v in row])
                    got = m.sample_action(CTX[:2], tau=tau, random_state=rng)
                    c.step()
                    for i in range(2):
                        s = [f[i, a] / tau + draws[i][a] for a in range(A)]
                        srt = sorted(s)
                        if min(y - x for x, y in zip(srt, srt[1:])) < 1e-5:
                            continue
                        order = sorted(range(A), key=lambda a: -s[a])
                        exp = np.zeros((A, L))
                        for p in range(L):
                            exp[order[p], p] = 1
                        c.same(got[i], exp, "sampled ranking of round %d (tau %s)" % (i, tau))
            c.same(m.sample_action(CTX, random_state=3), m.sample_action(CTX, random_state=3), "sampling with the same seed")


def big(c, kind, n, b, cont):
    """logs longer than a mini-batch, in order: every round is used once per epoch, in batches of the requested size"""
    import torch
    from obp.policy import ContinuousNNPolicyLearner, NNPolicyLearner

    torch.set_num_threads(1)
    g = np.random.RandomState(n)
    X, r, ps = g.normal(size=(n, 2)), g.uniform(size=n) + np.arange(n) / n, g.uniform(0.3, 1.0, size=n)
    bs = min(200, n) if b == "auto" else b
    path = [list(range(i, min(n, i + bs))) for i in range(0, n, bs)] * 2
    with c.case("big", kind=kind, n=n, batch=b, continuous=cont):
        kw = dict(dim_context=2, hidden_layer_size=(3,), activation="tanh", solver="sgd", learning_rate_init=0.2, max_iter=2, batch_size=b, shuffle=False, random_state=4, n_iter_no_change=BIG, alpha=0.0)
        qh = dict(hidden_layer_size=(2,), activation="tanh", solver="sgd", learning_rate_init=0.1, max_iter=2, n_iter_no_change=BIG, alpha=0.0, batch_size=b, shuffle=False)
        if cont:
            a = g.normal(size=n) * 0.5
            m = ContinuousNNPolicyLearner(pg_method=kind, bandwidth=0.7, q_func_estimator_hyperparams=dict(qh) if kind != "ipw" else None, **kw)
        else:
            a = g.randint(3, size=n)
            m = NNPolicyLearner(n_actions=3, off_policy_objective=kind, q_func_estimator_hyperparams=dict(qh) if kind in ("dm", "dr") else None, **kw)
        p0 = nnref.params_of(m.nn_model)
        qp = q = None
        if m.q_func_estimator is not None if hasattr(m, "q_func_estimator") else False:
            q0 = nnref.params_of(m.q_func_estimator.nn_model)
            qp = nnref.train(q0, q_objective(np.c_[X, a] if cont else X, None if cont else a, r, "tanh", cont=cont), path, nnref.Opt("sgd", 0.1, 0.0))
            q = lambda Z: nnref.forward(qp, Z, "tanh").detach()
        m.fit(context=X, action=a, reward=r, pscore=ps)
        c.step(len(path))
        obj = cont_objective(kind, X, a, r, ps, 0.7, None, qp, "tanh") if cont else discrete_objective(kind, X, a, r, ps, DEF_LAM.get(kind), 0.0, "tanh", q)
        p1 = nnref.train(p0, obj, path, nnref.Opt("sgd", 0.2, 0.0))
        out = nnref.forward(p1, T(X), "tanh")
        exp = out[:, 0].numpy() if cont else torch.softmax(out, dim=1).numpy()
        c.close(m.predict(X) if cont else m.predict_proba(X)[:, :, 0], exp, "policy", **TOL)


def extreme(c, kind, cont):
    """confident policies, tiny propensities, narrow kernels: one update matches the gradient of the documented objective"""
    import torch
    from obp.policy import ContinuousNNPolicyLearner, NNPolicyLearner

    torch.set_num_threads(1)
    for seed, n, sc in itertools.product(range(6), (1, 3), (1.0, 12.0)):
        X = CTX[[(i + seed) % 4 for i in range(n)]] * sc
        r = np.array([[1.0, 0.5, 2.0, -1.0][(i + seed) % 4] for i in range(n)])
        ps = np.array([[1e-3, 0.5, 2e-4][(i + seed // 2) % 3] for i in range(n)])
        kw = dict(dim_context=2, hidden_layer_size=(), solver="sgd", momentum=0.0, nesterovs_momentum=False, max_iter=1, random_state=seed, n_iter_no_change=BIG, alpha=0.0)
        for bw in ((0.02, 0.3, 8.0) if cont else (None,)):
            with c.case("extreme", kind=kind, continuous=cont, seed=seed, n=n, scale=sc, bandwidth=bw):
                qh = dict(hidden_layer_size=(2,), activation="tanh", solver="sgd", learning_rate_init=0.1, max_iter=1, n_iter_no_change=BIG, alpha=0.0)
                mk = (lambda lr: ContinuousNNPolicyLearner(pg_method=kind, bandwidth=bw, learning_rate_init=lr, q_func_estimator_hyperparams=dict(qh) if kind != "ipw" else None, **kw)) if cont else (
                    lambda lr: NNPolicyLearner(n_actions=3, off_policy_objective=kind, learning_rate_init=lr, q_func_estimator_hyperparams=dict(qh) if kind in ("dm", "dr") else None, **kw))
                m = mk(0.1)
                p0 = nnref.params_of(m.nn_model)
                if cont:
                    a = nnref.forward(p0, T(X), "relu")[:, 0].numpy() + bw * np.array([0.4, -0.7, 1.1])[:n]
                else:
                    # logged: the least likely action, then the most likely
                    o = nnref.forward(p0, T(X), "relu").numpy()
                    a = np.array([o[i].argmin() if i % 2 == 0 else o[i].argmax() for i in range(n)])
                qp = q = None
                if kind in ("dm", "dr", "dpg"):
                    q0 = nnref.params_of(m.q_func_estimator.nn_model)
                    qp = nnref.train(q0, q_objective(np.c_[X, a] if cont else X, None if cont else a, r, "tanh", cont=cont), [range(n)], nnref.Opt("sgd", 0.1, 0.0))
                    q = lambda Z: nnref.forward(qp, Z, "tanh").detach()
                obj = cont_objective(kind, X, a, r, ps, bw, None, qp, "relu") if cont else discrete_objective(kind, X, a, r, ps, DEF_LAM.get(kind), 0.0, "relu", q)
                # choose the step so that the update has size one
                trial = nnref.train(p0, obj, [range(n)], nnref.Opt("sgd", 1.0, 0.0, momentum=0.0, nesterov=False))
                size = max(float((u - v).abs().max()) for u, v in zip(trial, p0))
                if size < 1e-6:
                    continue
                lr = 1.0 / size
                m = mk(lr)
                p1 = nnref.train(p0, obj, [range(n)], nnref.Opt("sgd", lr, 0.0, momentum=0.0, nesterov=False))
                m.fit(context=X, action=a, reward=r, pscore=ps)
                c.step()
                got = nnref.params_of(m.nn_model)
                for u, v in zip(got, p1):
                    c.close(u.numpy(), v.numpy(), "network parameters after one unit step", rtol=5e-3, atol=5e-3)


def repro(c):
    """the same seed gives the same policy"""
    import torch
    from obp.policy import ContinuousNNPolicyLearner, NNPolicyLearner

    torch.set_num_threads(1)
    n = 4
    for kind in ("dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss", "c-dpg", "c-ipw", "c-dr"):
        for es in (False, True):
            for b in ("auto", 1, 3):
                with c.case("repro", kind=kind, early_stopping=es, batch=b):
                    res = []
                    for _ in range(2):
                        X, a, r, ps = log_of(n, 2, [0, 1, 1, 0], 1)
                        kw = dict(dim_context=2, random_state=5, max_iter=3, learning_rate_init=0.05, batch_size=b, early_stopping=es)
                        if kind[:2] == "c-":
                            m = ContinuousNNPolicyLearner(pg_method=kind[2:], bandwidth=0.5, **kw)
                            a = np.array([0.1, -0.3, 0.5, 0.9])
                        else:
                            m = NNPolicyLearner(n_actions=2, off_policy_objective=kind, **kw)
                        m.fit(context=X, action=a, reward=r, pscore=ps)
                        out = m.predict(CTX) if kind[:2] == "c-" else m.predict_proba(CTX)
                        c.true(np.isfinite(out).all(), "policy is not finite")
                        res.append(out)
                        c.step()
                    c.same(res[0], res[1], "two runs with the same seed")


def reject(c):
    from obp.policy import ContinuousNNPolicyLearner, NNPolicyLearner

    base = dict(n_actions=2, dim_context=2, off_policy_objective="ipw")
    cb = dict(dim_context=2, pg_method="ipw", bandwidth=0.5)
    common = [("dim_context", 0), ("dim_context", 1.5), ("hidden_layer_size", 3), ("hidden_layer_size", (0,)), ("hidden_layer_size", (2, -1)), ("hidden_layer_size", ("2",)), ("activation", "x"), ("solver", "x"), ("alpha", -1.0), ("alpha", "0"),
              ("batch_size", 0), ("batch_size", -3), ("batch_size", "x"), ("batch_size", 1.5), ("learning_rate_init", 0.0), ("learning_rate_init", -0.1), ("max_iter", 0), ("max_iter", "1"), ("shuffle", "no"), ("tol", 0.0), ("tol", -1.0),
              ("momentum", 1.5), ("momentum", -0.5), ("nesterovs_momentum", "x"), ("early_stopping", "x"), ("validation_fraction", 0.0), ("validation_fraction", 1.5), ("beta_1", -0.5), ("beta_1", 1.5), ("beta_2", -0.5), ("beta_2", 1.5),
              ("epsilon", -1.0), ("n_iter_no_change", 0), ("q_func_estimator_hyperparams", "x"), ("random_state", "x")]
    for k, v in common + [("n_actions", 1), ("n_actions", "2"), ("len_list", 0), ("len_list", 3), ("off_policy_objective", "x"), ("off_policy_objective", None), ("policy_reg_param", -1.0), ("var_reg_param", -1.0)]:
        with c.case("reject-init", learner="discrete", argument=k, value=v):
            c.rejects(lambda: NNPolicyLearner(**dict(base, **{k: v})), "%s=%r" % (k, v))
            c.step()
    for k, v in common + [("pg_method", "x"), ("bandwidth", None), ("bandwidth", 0), ("bandwidth", -1.0), ("output_space", 3), ("output_space", ("a", "b"))]:
        with c.case("reject-init", learner="continuous", argument=k, value=v):
            c.rejects(lambda: ContinuousNNPolicyLearner(**dict(cb, **{k: v})), "%s=%r" % (k, v))
            c.step()
    for obj, lam in (("snipw", -1.0), ("ipw-os", -1.0), ("ipw-subgauss", -0.5), ("ipw-subgauss", 1.5)):
        with c.case("reject-lambda", objective=obj, lam=lam):
            c.rejects(lambda: NNPolicyLearner(n_actions=2, dim_context=2, off_policy_objective=obj, lambda_=lam), "lambda_")
    X, a, r, ps = log_of(3, 2, [0, 1, 1], 0)
    good = dict(context=X, action=a, reward=r, pscore=ps)
    for k, v in [("context", X[:, :1]), ("context", X[:2]), ("context", None), ("action", a[:2]), ("action", a * 1.0), ("action", a - 1), ("reward", r[:2]), ("reward", None), ("pscore", ps[:2]), ("pscore", ps * 0)]:
        with c.case("reject-fit", learner="discrete", argument=k, value=v):
            c.rejects(lambda: NNPolicyLearner(**base).fit(**dict(good, **{k: v})), "%s=%r" % (k, v))
            c.step()
    good = dict(context=X, action=a * 0.5, reward=r, pscore=ps)
    for k, v in [("context", X[:, :1]), ("context", X[:2]), ("context", None), ("action", a[:2] * 0.5), ("action", None), ("reward", r[:2]), ("reward", None), ("pscore", ps[:2]), ("pscore", ps * 0)]:
        with c.case("reject-fit", learner="continuous", argument=k, value=v):
            c.rejects(lambda: ContinuousNNPolicyLearner(**cb).fit(**dict(good, **{k: v})), "%s=%r" % (k, v))
            c.step()
    for ctx in (X[:, :1], X[0], None, X.tolist()):
        for meth in ("predict", "predict_proba", "sample_action"):
            with c.case("reject-predict", method=meth, context=ctx):
                c.rejects(lambda: getattr(NNPolicyLearner(**base), meth)(ctx), meth)
        with c.case("reject-predict", method="continuous predict", context=ctx):
            c.rejects(lambda: ContinuousNNPolicyLearner(**cb).predict(ctx), "predict")
    for es in (NNPolicyLearner(early_stopping=True, **base), ContinuousNNPolicyLearner(early_stopping=True, **cb)):
        with c.case("reject-small", learner=type(es).__name__):
            c.rejects(lambda: es.fit(context=X[:1], action=a[:1] if "Cont" not in type(es).__name__ else a[:1] * 0.5, reward=r[:1], pscore=ps[:1]), "one round with early stopping")


def stopping(c):
    """training goes on while the loss improves by tol and stops after n_iter_no_change iterations without such an improvement"""
    import torch
    from obp.policy import ContinuousNNPolicyLearner, NNPolicyLearner
    from obp.policy.offline import QFuncEstimator
    from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction

    torch.set_num_threads(1)
    n, b, nic = 6, 2, 2
    X, r, ps = np.repeat(CTX[:1], n, 0), np.ones(n), np.full(n, 0.5)
    for name in ("NNPolicyLearner", "QFuncEstimator", "ContinuousNNPolicyLearner", "QFuncEstimatorForContinuousAction"):
        for rule, tol, epochs in (("improving", 1e-9, 4), ("not-improving", 10.0, 20)):
            with c.case("stop:%s:%s" % (name, rule)):
                kw = dict(dim_context=2, hidden_layer_size=(), solver="sgd", momentum=0.0, nesterovs_momentum=False, learning_rate_init=0.02, max_iter=epochs, batch_size=b, random_state=3, tol=tol, n_iter_no_change=nic, alpha=0.0)
                cont = "Continuous" in name
                a = np.full(n, 0.5) if cont else np.zeros(n, dtype=int)
                Z = T(CTX)
                if name == "NNPolicyLearner":
                    m = NNPolicyLearner(n_actions=2, off_policy_objective="ipw", **kw)
                    obj = discrete_objective("ipw", X, a, r, ps, None, 0.0, "relu")
                elif name == "ContinuousNNPolicyLearner":
                    m = ContinuousNNPolicyLearner(pg_method="ipw", bandwidth=1.0, **kw)
                    obj = cont_objective("ipw", X, a, r, ps, 1.0, None, None, "relu")
                elif name == "QFuncEstimator":
                    m = QFuncEstimator(n_actions=2, **kw)
                    obj = q_objective(X, a, r, "relu")
                else:
                    m = QFuncEstimatorForContinuousAction(**kw)
                    obj = q_objective(np.c_[X, a], None, r, "relu", cont=True)
                    Z = torch.cat([Z, T([0.1, 0.2, 0.3, 0.4])[:, None]], 1)
                ps_ = nnref.params_of(m.nn_model)
                traj = [nnref.forward(ps_, Z, "relu").numpy()]
                opt = nnref.Opt("sgd", 0.02, 0.0, momentum=0.0, nesterov=False)
                for _ in range(epochs * n // b):
                    ps_ = nnref.train(ps_, obj, [range(b)], opt)
                    traj.append(nnref.forward(ps_, Z, "relu").numpy())
                    c.step()
                m.fit(context=X, action=a, reward=r, **({"pscore": ps} if "Policy" in name else {}))
                out = m.nn_model[:-1](torch.from_numpy(CTX).float()) if name == "NNPolicyLearner" else m.nn_model(Z.float())
                d = [np.abs(out.detach().numpy() - t).max() for t in traj]
                k = int(np.argmin(d))
                c.true(d[k] < 1e-4, "the outcome is on no point of the training trajectory")
                full = epochs * n // b
                if rule == "improving":
                    c.same(k, full, "updates made while every update improves the loss")
                else:
                    c.true(k <= (nic + 2) * n // b, "%d updates made although no update improves the loss by tol" % k)


def jobs(tier):
    q = tier == "quick"
    out = [("reject", ()), ("repro", ()), ("stopping", ())]
    for kind in ("dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"):
        for solver in ("sgd", "adagrad", "adam"):
            for n, A in ((2, 2), (3, 2), (2, 3)) if q else ((2, 2), (3, 2), (2, 3), (3, 3), (4, 2)):
                out.append(("discrete", (kind, solver, n, A, tier)))
    for kind in ("ipw", "snipw", "ipw-os") if q else ("ipw", "snipw", "ipw-os", "ipw-subgauss"):
        for solver in ("sgd", "adam", "adagrad"):
            for n, b in ((2, 1), (3, 1), (3, 2), (4, 3)):
                for sh in (True, False):
                    out.append(("sched", (kind, solver, n, b, sh, 1, 3 if q else 8)))
    out.append(("sched", ("ipw", "sgd", 3, 2, True, 2, 3)))
    if not q:
        out += [("sched", ("ipw", "adam", 3, 1, True, 2, 8)), ("sched", ("ipw", "adam", 4, 2, True, 2, 4)), ("sched", ("ipw", "sgd", 4, 1, True, 1, 8))]
    for n, b in ((150, "auto"), (250, "auto"), (130, 70), (90, 128), (520, "auto")):
        out += [("big", (k, n, b, False)) for k in ("ipw", "dr", "snipw", "dm")] + [("big", (k, n, b, True)) for k in ("ipw", "dr", "dpg")]
    out += [("extreme", (k, False)) for k in ("dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss")] + [("extreme", (k, True)) for k in ("ipw", "dr", "dpg")]
    for n, f in ((2, 0.1), (3, 0.1), (3, 0.7), (4, 0.5), (4, 0.1), (4, 0.8)):
        out += [("split", (n, f, False)), ("split", (n, f, True))]
    for kind in ("dpg", "ipw", "dr"):
        for solver in ("sgd", "adagrad", "adam"):
            for n in (1, 2, 3):
                out.append(("continuous", (kind, solver, n, tier)))
    for n, b in ((2, 1), (3, 2), (4, 3)):
        for sh in (True, False):
            out.append(("cont_sched", ("ipw", n, b, sh, 3 if q else 8)))
    for A in (2, 3, 4):
        for L in range(1, A + 1):
            out.append(("ranking", (A, L, (-1.0, 0.05, 0.6))))
    return out
