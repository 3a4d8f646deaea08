"""C30: nuisance models, learners, simulators and generators reject malformed logs and settings (fault enumeration)."""
import itertools

import numpy as np

from mc.core import Frozen
from mc.checks.c10 import DROP, apply, length_faults, role_faults as c10_faults, type_faults

ID = "C30"
LEVEL = "fault_enumeration"
RULE = ("for every nuisance model, offline learner, replay, simulator and data generator, and every entry point of it: every single fault of the menu in every argument, value faults at every entry of the array; "
        "the faulty call must raise and must leave its arguments alone, and the repaired call on the same object must give what a fresh object gives; "
        "every setting outside its documented range must be rejected by the constructor, every boundary value accepted")
BOUNDS = {"quick": "logs of 24 rounds (12 slates), 3 actions, 1-2 positions ; all single faults, value faults at every entry; logs of 1024 rounds with faults at the ends and the middle", "thorough": "same"}
ASSUMPTIONS = ["a call counts as rejected when it raises any exception; messages and types are not judged"]


def role_faults(role, v, info):
    if role == "context":
        yield from type_faults(v, 2)
        yield from length_faults(v)
        if info.get("dim"):
            yield "narrow", v[:, :-1]
            yield "wide", np.c_[v, v[:, :1]]
    elif role == "newcontext":
        for n, x in type_faults(v, 2):
            yield n, x
        yield "narrow", v[:, :-1]
        yield "wide", np.c_[v, v[:, :1]]
    elif role == "pscore?":
        for n, x in c10_faults("pscore", v, info):
            if n not in ("None", "dropped"):
                yield n, x
    elif role == "action-":
        for n, x in c10_faults("action", v, info):
            if "[" not in n or n.endswith("=-1"):
                yield n, x
    elif role == "action0":
        for n, x in c10_faults("action", v, info):
            if not n.endswith("=-1"):
                yield n, x
    elif role == "position?":
        for n, x in c10_faults("position", v, info):
            if n != "None":
                yield n, x
    elif role == "position" and info["L"] == 1:
        for n, x in c10_faults("position", v, info):
            if "[" not in n or n.endswith("=-1"):
                yield n, x
    elif role == "reward+":
        yield from c10_faults("reward", v, info)
        for i in range(len(v)):
            for x in (-0.25, -2.0**-20):
                w = v.astype(float)
                w[i] = x
                yield "v[%d]=%r" % (i, x), w
    elif role == "cdist":
        yield from type_faults(v, 3)
        yield from c10_faults("dist", v, info)
        yield "one-action-less", v[:, :-1] / v[:, :-1].sum(1, keepdims=True)
        yield "one-position-more", np.concatenate([v, v[:, :, :1]], axis=2)
    elif role == "q2":
        yield from type_faults(v, 2)
        yield from length_faults(v)
    elif role in ("q2s", "shape3", "rows3"):
        yield from type_faults(v, 2 if role == "q2s" else 3)
        yield from length_faults(v)
        if role != "rows3":
            yield "one-action-less", v[:, :-1]
            yield "one-action-more", np.concatenate([v, v[:, :1]], axis=1)
    elif role == "unit":
        for x in (-0.1, 1.1, "0.5", None, [0.5]):
            yield repr(x), x
    elif role == "onecontext":
        yield "1d", v[0]
        yield "3d", v[None]
        yield "list", v.tolist()
        yield "two", np.r_[v, v]
        yield "narrow", v[:, :-1]
        yield "wide", np.c_[v, v]
        yield "None", None
    elif role == "tau":
        for x in (-1, -0.5, "1", None, [1.0]):
            yield repr(x), x
    elif role == "n_folds":
        for x in (0, -1, 2.0, "2", None, [2]):
            yield repr(x), x
    elif role == "random_state":
        for x in ("a", -1, 0.5, [[1.5]]):
            yield repr(x), x
    elif role == "n_rounds":
        for x in (0, -1, -100, 3.0, 2.5, "3", None, [3], np.array([3])):
            yield repr(x), x
    else:
        for n, x in c10_faults(role, v, info):
            if n.split("[")[0] not in info.get("without", ()):
                yield n, x


def base_log(n=24, A=3, L=1):
    i = np.arange(n)
    d = np.zeros((n, A, L))
    for l in range(L):
        w = np.array([[1 + (r * 3 + a * 5 + l) % 4 for a in range(A)] for r in range(n)], float)
        w[:, 0] += 8 - w.sum(1) % 8
        d[:, :, l] = w / w.sum(1, keepdims=True)
    return dict(context=np.c_[((i * 5) % 7) / 4.0, ((i * 3) % 5) / 2.0 - 1], action=(i * 2 + i // 3) % A, reward=(i % 2).astype(float), position=(i // 2) % L,
                pscore=((i % 3) + 1) / 4.0, action_dist=d)


def systems(group, n=24):
    """name -> (make, call(obj, kw), kw, roles, info)"""
    from sklearn.linear_model import LinearRegression, LogisticRegression
    from obp import ope, policy

    out = {}
    if group == "data":
        return data_systems()
    if group == "regression":
        for L in (1, 2):
            g = base_log(n, 3, L)
            for fm in ("normal", "iw", "mrdr"):
                ro = dict(context="context", action="action", reward="reward", pscore="pscore?", position="position")
                if fm != "normal":
                    ro["action_dist"] = "cdist"
                kw = {k: g[k] for k in ro}
                for bn, bm in (("lin", LinearRegression()), ("logit", LogisticRegression())):
                    mk = lambda bm=bm, L=L, fm=fm: ope.RegressionModel(base_model=bm, n_actions=3, len_list=L, fitting_method=fm)
                    info = dict(A=3, L=L)
                    probe = g["context"][:3]
                    out["%s-%s/L%d/fit" % (bn, fm, L)] = (mk, lambda o, k, p=probe: (o.fit(**k), o.predict(p))[1], kw, ro, info)
                    for nf in (1, 2):
                        kw2, ro2 = dict(kw, n_folds=nf, random_state=3), dict(ro, n_folds="n_folds")
                        if nf == 2:
                            ro2["random_state"] = "random_state"
                        out["%s-%s/L%d/fit_predict%d" % (bn, fm, L, nf)] = (mk, lambda o, k: o.fit_predict(**k), kw2, ro2, info)
    elif group == "classification":
        for L in (1, 2):
            g = base_log(n, 3, L)
            info = dict(A=3, L=L)
            for cal in (0, 2):
                mk = lambda L=L, cal=cal: ope.ImportanceWeightEstimator(base_model=LogisticRegression(), n_actions=3, len_list=L, calibration_cv=cal)
                ro = dict(context="context", action="action", position="position", action_dist="cdist")
                kw = {k: g[k] for k in ro}
                pr = {k: g[k][:4] for k in ("context", "action", "position")}
                out["iw/c%d/L%d/fit" % (cal, L)] = (mk, lambda o, k, p=pr: (o.fit(random_state=0, **k), o.predict(**p))[1], kw, ro, info)
                if not cal:
                    for nf in (1, 2):
                        out["iw/L%d/fit_predict%d" % (L, nf)] = (mk, lambda o, k: o.fit_predict(**k), dict(kw, n_folds=nf, random_state=1), dict(ro, n_folds="n_folds", random_state="random_state"), info)
                mk = lambda L=L, cal=cal: ope.PropensityScoreEstimator(base_model=LogisticRegression(), n_actions=3, len_list=L, calibration_cv=cal)
                ro = dict(context="context", action="action", position="position")
                kw = {k: g[k] for k in ro}
                out["ps/c%d/L%d/fit" % (cal, L)] = (mk, lambda o, k, p=pr: (o.fit(**k), o.predict(**p))[1], kw, ro, info)
                if not cal:
                    for nf in (1, 2):
                        out["ps/L%d/fit_predict%d" % (L, nf)] = (mk, lambda o, k: o.fit_predict(**k), dict(kw, n_folds=nf, random_state=1), dict(ro, n_folds="n_folds", random_state="random_state"), info)
    elif group == "slate":
        from mc.checks import c09
        L, A, ns = 2, 3, n // 2
        log = c09.slate_log(ns, L, A, 0)
        i = np.arange(ns)
        kw = dict(context=np.c_[(i % 3) / 2.0, (i * 2 % 5) / 4.0], action=log["action"], reward=log["reward"], pscore_cascade=log["pscore_cascade"],
                  evaluation_policy_pscore_cascade=log["evaluation_policy_pscore_cascade"], evaluation_policy_action_dist=log["evaluation_policy_action_dist"])
        ro = dict(context="context", action="action", reward="reward", pscore_cascade="sp_cascade", evaluation_policy_pscore_cascade="sp_cascade", evaluation_policy_action_dist="sdist")
        info = dict(A=A, L=L, without=("increasing",))
        kw["evaluation_policy_pscore_cascade"] = np.maximum(log["evaluation_policy_pscore_cascade"], 2.0**-10)
        for fm in ("normal", "iw"):
            mk = lambda fm=fm: ope.SlateRegressionModel(base_model=LinearRegression(), len_list=L, n_unique_action=A, fitting_method=fm)
            out["slate-%s/fit" % fm] = (mk, lambda o, k, kw=kw: (o.fit(**k), o.predict(context=kw["context"], action=kw["action"]))[1], kw, ro, info)
            out["slate-%s/fit_predict" % fm] = (mk, lambda o, k: o.fit_predict(**k), kw, ro, info)
    elif group == "offline":
        for L in (1, 2):
            g = base_log(n, 3, L)
            info = dict(A=3, L=L)
            ro = dict(context="context", action="action", reward="reward+", pscore="pscore?", position="position")
            kw = {k: g[k] for k in ro}
            pr = g["context"][:3]
            out["ipwl/L%d/fit" % L] = (lambda L=L: policy.IPWLearner(n_actions=3, len_list=L, base_classifier=LogisticRegression()), lambda o, k, pr=pr: (o.fit(**k), o.predict(pr))[1], kw, ro, info)
            for fm in ("normal", "iw", "mrdr"):
                r2 = dict(ro, reward="reward")
                out["q-%s/L%d/fit" % (fm, L)] = (lambda L=L, fm=fm: policy.QLearner(n_actions=3, len_list=L, base_model=LinearRegression(), fitting_method=fm), lambda o, k, pr=pr: (o.fit(**k), o.predict(pr))[1], kw, r2, info)

            def fitted(which, L=L, g=g):
                o = policy.IPWLearner(n_actions=3, len_list=L, base_classifier=LogisticRegression()) if which == "ipwl" else policy.QLearner(n_actions=3, len_list=L, base_model=LinearRegression())
                o.fit(**{k: g[k] for k in ("context", "action", "reward", "pscore", "position")})
                return o

            for w in ("ipwl", "q"):
                mk = lambda w=w, fitted=fitted: fitted(w)
                out["%s/L%d/predict" % (w, L)] = (mk, lambda o, k: o.predict(**k), dict(context=pr), dict(context="newcontext"), info)
                out["%s/L%d/predict_score" % (w, L)] = (mk, lambda o, k: o.predict_score(**k), dict(context=pr), dict(context="newcontext"), info)
                out["%s/L%d/sample_action" % (w, L)] = (mk, lambda o, k: o.sample_action(**k), dict(context=pr, tau=1.0, random_state=0), dict(context="newcontext", tau="tau", random_state="random_state"), info)
                if w == "q" or L == 1:
                    out["%s/L%d/predict_proba" % (w, L)] = (mk, lambda o, k: o.predict_proba(**k), dict(context=pr, tau=1.0), dict(context="newcontext", tau="tau"), info)
    elif group == "torch":
        g = base_log(n, 3, 1)
        info = dict(A=3, L=1, dim=2)
        pr = g["context"][:3]
        for obj in ("dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"):
            ro = dict(context="context", action="action", reward="reward", pscore="pscore?")
            kw = {k: g[k] for k in ro}
            mk = lambda obj=obj: policy.NNPolicyLearner(n_actions=3, dim_context=2, off_policy_objective=obj, hidden_layer_size=(2,), max_iter=1, batch_size=4, random_state=0, q_func_estimator_hyperparams=dict(max_iter=1, hidden_layer_size=(2,)))
            out["nn-%s/fit" % obj] = (mk, lambda o, k, pr=pr: (o.fit(**k), o.predict_proba(pr))[1], kw, ro, info)

        def fitted():
            o = policy.NNPolicyLearner(n_actions=3, dim_context=2, off_policy_objective="ipw", hidden_layer_size=(2,), max_iter=1, batch_size=4, random_state=0)
            o.fit(**{k: g[k] for k in ("context", "action", "reward", "pscore")})
            return o

        for m in ("predict", "predict_proba"):
            out["nn/" + m] = (fitted, lambda o, k, m=m: getattr(o, m)(**k), dict(context=pr), dict(context="newcontext"), info)
        out["nn/sample_action"] = (fitted, lambda o, k: o.sample_action(**k), dict(context=pr, tau=1.0, random_state=0), dict(context="newcontext", tau="tau", random_state="random_state"), info)
        mkq = lambda: QFuncEstimator(n_actions=3, dim_context=2, hidden_layer_size=(2,), max_iter=1, batch_size=4, random_state=0)
        import torch
        from obp.policy.offline import QFuncEstimator

        out["qfunc/fit"] = (mkq, lambda o, k, pr=pr: (o.fit(**k), o.predict(torch.from_numpy(pr).float()).detach().numpy())[1],
                            {k: g[k] for k in ("context", "action", "reward")}, dict(context="context", action="action", reward="reward"), info)
        i = np.arange(n)
        cg = dict(context=g["context"], action=((i * 7) % 9) / 4.0 - 1, reward=((i * 5) % 7) / 2.0, pscore=((i % 4) + 1) / 4.0)
        for pg in ("dpg", "ipw", "dr"):
            ro = dict(context="context", action="float1", reward="reward", pscore="pscore?")
            mk = lambda pg=pg: policy.ContinuousNNPolicyLearner(dim_context=2, pg_method=pg, bandwidth=0.5, hidden_layer_size=(2,), max_iter=1, batch_size=4, random_state=0, q_func_estimator_hyperparams=dict(max_iter=1, hidden_layer_size=(2,)))
            out["cnn-%s/fit" % pg] = (mk, lambda o, k, pr=pr: (o.fit(**k), o.predict(pr))[1], cg, ro, info)

        def cfitted():
            o = policy.ContinuousNNPolicyLearner(dim_context=2, pg_method="ipw", bandwidth=0.5, hidden_layer_size=(2,), max_iter=1, batch_size=4, random_state=0)
            o.fit(**cg)
            return o

        out["cnn/predict"] = (cfitted, lambda o, k: o.predict(**k), dict(context=pr), dict(context="newcontext"), info)
    elif group == "replay":
        from obp.simulator.replay import run_bandit_replay
        from obp.simulator.simulator import calc_ground_truth_policy_value
        for L in (1, 2):
            g = base_log(n, 3, L)
            info = dict(A=3, L=L)
            ro = dict(context="context", action="action-", reward="reward", position="position?", pscore="pscore?")
            kw = {k: g[k] for k in ro}
            for pn, mp in (("eg", lambda L=L: policy.EpsilonGreedy(n_actions=3, len_list=L, epsilon=0.0, random_state=0)), ("ucb", lambda L=L: policy.LinUCB(dim=2, n_actions=3, len_list=L, epsilon=0.5, random_state=0))):
                out["replay-%s/L%d" % (pn, L)] = (mp, lambda o, k: run_bandit_replay(dict(k, n_rounds=n, n_actions=3), o), kw, ro, info)
                r2 = dict(context="context", action="action", reward="reward", position="position?", expected_reward="q2")
                k2 = dict({k: g[k] for k in r2 if k in g}, expected_reward=g["action_dist"][:, :, 0])
                out["truth-%s/L%d" % (pn, L)] = (mp, lambda o, k: calc_ground_truth_policy_value(dict(k, n_rounds=n, n_actions=3), lambda x, a: 0.5, o, n_sim=1), k2, r2, info)
    return out


def setting_specs(group):
    """(class or function, legal keyword arguments, {argument: (legal values, illegal values)})"""
    from pathlib import Path
    from sklearn.linear_model import LinearRegression, LogisticRegression
    from obp import dataset, ope, policy
    from obp.policy.offline import QFuncEstimator
    from obp.policy.offline_continuous import QFuncEstimatorForContinuousAction
    from obp.simulator.coefficient_drifter import CoefficientDrifter
    from obp.simulator.delay_sampler import ExponentialDelaySampler
    from obp.simulator.simulator import BanditEnvironmentSimulator

    inf = float("inf")
    ge2 = ((2, 3, 50), (1, 0, -3, 3.0, "3", None, [3]))
    ge1 = ((1, 2, 5), (0, -1, 1.0, "2", None, [1]))
    flag = ((True, False), ("True", 1, 0, None, 1.0))
    seed = ((0, 7), ("a", -1, 0.5))
    seed1 = ((0, 7), (None, "a", -1, 0.5))
    clf, reg = LogisticRegression(), LinearRegression()
    spec = []
    if group == "models":
        spec.append((ope.RegressionModel, dict(base_model=reg, n_actions=3), dict(n_actions=ge2, len_list=ge1, fitting_method=(("normal", "iw", "mrdr"), ("abc", "", None, 1, ["iw"], "IW")), base_model=((reg, clf), (None, "lr", 1, LinearRegression)))))
        for cl in (ope.ImportanceWeightEstimator, ope.PropensityScoreEstimator):
            ar = dict(n_actions=ge2, len_list=ge1, calibration_cv=((0, 2, 5), (2.0, "2", None)), base_model=((clf,), (None, "lr")))
            if cl is ope.ImportanceWeightEstimator:
                ar["fitting_method"] = (("sample", "raw"), ("abc", "", None, 1))
            spec.append((cl, dict(base_model=clf, n_actions=3), ar))
        spec.append((ope.SlateRegressionModel, dict(base_model=reg, n_unique_action=3, len_list=2), dict(n_unique_action=ge2, len_list=ge1, fitting_method=(("normal", "iw"), ("abc", "", None, 1, "mrdr")), base_model=((reg,), (clf, None, "lr")))))
        spec.append((policy.IPWLearner, dict(n_actions=3, base_classifier=clf), dict(n_actions=ge2, len_list=((1, 3), (0, -1, 4, 1.0, "1", None)), base_classifier=((clf, None), (reg, "lr", 1)))))
        spec.append((policy.QLearner, dict(n_actions=3, base_model=reg), dict(n_actions=ge2, len_list=((1, 3), (0, -1, 4, 1.0, "1", None)), base_model=((reg, clf), (None, "lr")), fitting_method=(("normal", "iw", "mrdr"), ("abc", None, "")))))
    elif group == "torch":
        common = dict(dim_context=ge1, hidden_layer_size=(((100,), (2, 3), (1,)), ([2], 2, (2.0,), (0,), (2, -1), ("2",), None)), activation=(("identity", "logistic", "tanh", "relu", "elu"), ("abc", "", None, 1)),
                      solver=(("adagrad", "sgd", "adam"), ("abc", "", None, "ADAM")), alpha=((0.0, 0.5), (-0.1, "1", None, 1)), batch_size=(("auto", 1, 32), (0, -1, 1.0, "full", None)),
                      learning_rate_init=((1e-4, 0.5), (0.0, -0.1, "1", None)), max_iter=((1, 200), (0, -1, 1.0, "1", None)), shuffle=flag, tol=((1e-6, 0.1), (0.0, -1e-4, "1", None)),
                      momentum=((0.0, 0.9, 1.0), (-0.1, 1.1, "1", None)), nesterovs_momentum=flag, early_stopping=flag, validation_fraction=((0.1, 1.0), (0.0, -0.1, 1.5, "1", None)),
                      beta_1=((0.0, 0.9), (-0.1, 1.1, "1", None)), beta_2=((0.0, 0.9), (-0.1, 1.1, "1", None)), epsilon=((0.0, 1e-8), (-1e-8, "1", None)), n_iter_no_change=((1, 10), (0, -1, 1.0, "1", None)))
        spec.append((policy.NNPolicyLearner, dict(n_actions=3, dim_context=2, off_policy_objective="ipw"),
                     dict(common, n_actions=ge2, len_list=((1,), (0, -1, 4, 1.0, "1", None)), off_policy_objective=(("dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"), ("abc", "", None, "IPW")), policy_reg_param=((0, 0.0, 2.5), (-0.1, "1", None)),
                          var_reg_param=((0, 0.0, 2.5), (-0.1, "1", None)), q_func_estimator_hyperparams=((None, {}), ([], 1, "a")))))
        spec.append((policy.NNPolicyLearner, dict(n_actions=3, dim_context=2, off_policy_objective="ipw-subgauss"), dict(lambda_=((0, 0.5, 1.0, None), (-0.1, 1.1, 2, "1")))))
        for o in ("ipw-os", "snipw"):
            spec.append((policy.NNPolicyLearner, dict(n_actions=3, dim_context=2, off_policy_objective=o), dict(lambda_=((0, 0.5, 100.0, None), (-0.1, -1, "1")))))
        spec.append((QFuncEstimator, dict(n_actions=3, dim_context=2), dict(common, n_actions=((3,), ()))))
        for pg in ("ipw", "dr", "dpg"):
            ar = dict(common, pg_method=(("dpg", "ipw", "dr"), ("abc", "", None)), output_space=(((-1, 1), (-0.5, 2.0), None), ([0, 1], ("a", 1), 3)), q_func_estimator_hyperparams=((None, {}), ([], 1, "a")))
            if pg != "dpg":
                ar["bandwidth"] = ((0.1, 1, 5.0), (0, 0.0, -0.5, "1", None))
            spec.append((policy.ContinuousNNPolicyLearner, dict(dim_context=2, pg_method=pg, bandwidth=0.5), ar))
        spec.append((QFuncEstimatorForContinuousAction, dict(dim_context=2), common))
    elif group == "online":
        ctxfree = dict(n_actions=ge2, len_list=((1, 3), (0, -1, 4, 1.0, "1", None)), batch_size=ge1, random_state=seed)
        e01, e0 = ((0.0, 0.5, 1.0), (-0.1, 1.1, "0.5", None)), ((0.0, 0.5, 10.0), (-0.1, "0.5", None))
        pos = ((0.1, 1.0, 20.0), (0.0, -0.5, "1", None))
        spec.append((policy.EpsilonGreedy, dict(n_actions=3), dict(ctxfree, epsilon=e01)))
        spec.append((policy.Random, dict(n_actions=3), dict(ctxfree, epsilon=e01)))
        spec.append((policy.BernoulliTS, dict(n_actions=3), ctxfree))
        lin = dict(ctxfree, dim=ge1)
        lin["n_actions"] = ((2, 3, 5), ge2[1])
        spec.append((policy.LinEpsilonGreedy, dict(n_actions=3, dim=2), dict(lin, epsilon=e01)))
        spec.append((policy.LinUCB, dict(n_actions=3, dim=2), dict(lin, epsilon=e0)))
        spec.append((policy.LinTS, dict(n_actions=3, dim=2), lin))
        lg = {k: v for k, v in dict(lin, alpha_=pos, lambda_=pos).items()}
        spec.append((policy.LogisticEpsilonGreedy, dict(n_actions=3, dim=2), dict(lg, epsilon=e01)))
        spec.append((policy.LogisticUCB, dict(n_actions=3, dim=2), dict(lg, epsilon=e0)))
        spec.append((policy.LogisticTS, dict(n_actions=3, dim=2), lg))
        spec.append((BanditEnvironmentSimulator, dict(n_actions=3), dict(n_actions=ge2, dim_context=ge1, random_state=seed1, action_context=((None, np.eye(3), np.ones((3, 5))), (np.eye(2), np.eye(4), np.ones(3), np.eye(3).tolist(), np.ones((3, 2, 2)), "a")))))
        spec.append((CoefficientDrifter, dict(drift_interval=3), dict(random_state=seed1)))
        spec.append((ExponentialDelaySampler, dict(random_state=1), dict(random_state=seed1)))
    elif group == "datasets":
        ac = ((None, np.eye(3), np.ones((3, 5))), (np.eye(2), np.eye(4), np.ones(3), np.eye(3).tolist(), np.ones((3, 2, 2)), "a"))
        syn = dict(n_actions=ge2, dim_context=ge1, reward_type=(("binary", "continuous"), ("abc", "", None, 1, "Binary")), reward_std=((0, 0.0, 2.5), (-0.1, -1, "1", None)), action_context=ac,
                   n_deficient_actions=((0, 1, 2), (-1, 3, 7, 1.0, "1", None)), random_state=seed1)
        spec.append((dataset.SyntheticBanditDataset, dict(n_actions=3), dict({k: v for k, v in syn.items()}, beta=((0, -3.5, 2.0), ("1", None, [1.0])))))
        spec.append((dataset.SyntheticMultiLoggersBanditDataset, dict(n_actions=3, betas=[0.5, 1], rhos=[1, 2]), dict(syn, betas=(([0, -1.0],), ((0, 1), [1], [1, 2, 3], [1, "a"], [None, 1], None, 1.0, np.array([1.0, 2.0]))),
                                                                                                           rhos=(([0.5, 0.5], [0.0, 1], [3, 100]), ((1, 1), [1], [1, 1, 1], [1, -0.5], [-1, 1], [1, "a"], None, np.array([0.5, 0.5]))))))
        emb = {k: v for k, v in syn.items() if k not in ("action_context", "n_actions")}
        spec.append((dataset.SyntheticBanditDatasetWithActionEmbeds, dict(n_actions=3), dict(emb, n_actions=((2, 3), ge2[1]), n_cat_per_dim=ge1, latent_param_mat_dim=ge1, n_cat_dim=ge1, p_e_a_param_std=((0, 0.0, 2.5), (-0.1, "1", None)),
                                                                                           n_unobserved_cat_dim=((0, 3), (-1, 4, 1.0, "1", None)), n_irrelevant_cat_dim=((0, 3), (-1, 4, 1.0, "1", None)))))
        spec.append((dataset.SyntheticSlateBanditDataset, dict(n_unique_action=4, len_list=3), dict(n_unique_action=((3, 10), (2, 1, 0, -1, 4.0, "4", None)), len_list=((2, 3, 4), (1, 0, -1, 5, 3.0, "3", None)), dim_context=ge1,
                                                                                                  reward_type=(("binary", "continuous"), ("abc", "", None)), reward_structure=(("cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"), ("abc", "", None)),
                                                                                                  decay_function=(("exponential", "inverse"), ("abc", "", None)), click_model=(("cascade", "pbm", None), ("abc", "", 1)), random_state=((0, 7), ("a", -1, 0.5)))))
        spec.append((dataset.SyntheticSlateBanditDataset, dict(n_unique_action=4, len_list=5, is_factorizable=True), dict(len_list=((2, 4, 9), (1, 0, -1, 3.0)), n_unique_action=((2, 9), (1, 0, 2.0)))))
        for cm in ("pbm", "cascade"):
            spec.append((dataset.SyntheticSlateBanditDataset, dict(n_unique_action=4, len_list=3, click_model=cm), dict(eta=((0.0, 0.5, 3.0), (-0.1, "1", None)), reward_type=(("binary",), ("continuous",)))))
        spec.append((dataset.SyntheticContinuousBanditDataset, dict(), dict(dim_context=ge1, action_noise=((0, 0.5), (-0.1, "1", None)), reward_noise=((0, 0.5), (-0.1, "1", None)), random_state=seed1)))
        spec.append((dataset.SyntheticContinuousBanditDataset, dict(min_action_value=-1.0, max_action_value=1.0), dict(min_action_value=((0, -inf, 0.999), (1.0, 2, inf, "0", None)), max_action_value=((0, inf, -0.999), (-1.0, -2, -inf, "0", None)))))
        X, y = np.arange(24.0).reshape(12, 2) % 5, np.arange(12) % 3
        spec.append((dataset.MultiClassToBanditReduction, dict(X=X, y=y, base_classifier_b=clf), dict(base_classifier_b=((clf,), (reg, None, "lr")), alpha_b=((0.0, 0.5, 0.999), (-0.1, 1.0, 1.1, "0.5", None)), n_deficient_actions=((0, 2), (-1, 3, 1.0, "1", None)),
                                                                                                 X=((X,), (X[:-1], X[:, 0], "a", None)), y=((y,), (y[:-1], np.c_[y, y])))))
        d0 = Path("/nonexistent-obd-data")
        spec.append((dataset.OpenBanditDataset, None, dict(behavior_policy=((), ("abc", "", None, "BTS")), campaign=((), ("abc", "", None, "Men")), data_path=((), (1, ["a"], d0)))))
    return spec


def settings(c, group):
    for cl, base, args in setting_specs(group):
        real = base is None
        if real:
            base = dict(behavior_policy="random", campaign="all", data_path=None)
        for arg, (good, bad) in args.items():
            for v in good:
                with c.case("setting-ok/%s(%s)" % (cl.__name__, arg), value=v, base=base):
                    cl(**{**base, arg: v})
                    c.step()
            for v in bad:
                with c.case("setting/%s(%s)" % (cl.__name__, arg), value=v, base=base):
                    c.rejects(lambda: cl(**{**base, arg: v}), "%s with %s=%r" % (cl.__name__, arg, v), exc=Exception)
                    c.step()


def data_systems():
    from sklearn.linear_model import LogisticRegression
    from obp import dataset, policy
    from obp.simulator.simulator import BanditEnvironmentSimulator

    out = {}
    mks = dict(synthetic=lambda: dataset.SyntheticBanditDataset(n_actions=3, dim_context=2), multi=lambda: dataset.SyntheticMultiLoggersBanditDataset(n_actions=3, dim_context=2, betas=[1, 0], rhos=[1, 1]),
               embed=lambda: dataset.SyntheticBanditDatasetWithActionEmbeds(n_actions=3, dim_context=2), slate=lambda: dataset.SyntheticSlateBanditDataset(n_unique_action=3, len_list=2, dim_context=2),
               continuous=lambda: dataset.SyntheticContinuousBanditDataset(dim_context=2), environment=lambda: BanditEnvironmentSimulator(n_actions=3, dim_context=2))
    info = dict(A=3, L=1)
    for nm, mk in mks.items():
        m = "next_bandit_round_batch" if nm == "environment" else "obtain_batch_bandit_feedback"
        out[nm + "/n_rounds"] = (mk, lambda o, k, m=m: getattr(o, m)(**k), dict(n_rounds=3), dict(n_rounds="n_rounds"), info)
    g = base_log(6, 3, 1)
    er = g["action_dist"][:, :, 0]
    for nm in ("synthetic", "multi", "embed"):
        out[nm + "/truth"] = (mks[nm], lambda o, k: o.calc_ground_truth_policy_value(**k), dict(expected_reward=er, action_dist=g["action_dist"]), dict(expected_reward="q2s", action_dist="shape3"), info)
        if nm != "embed":
            out[nm + "/sample_reward"] = (mks[nm], lambda o, k: o.sample_reward(**k), dict(context=g["context"], action=g["action"]), dict(context="context", action="action0"), info)
    X, y = np.arange(24.0).reshape(12, 2) % 5, np.arange(12) % 3

    def mc():
        o = dataset.MultiClassToBanditReduction(X=X, y=y, base_classifier_b=LogisticRegression())
        o.split_train_eval(eval_size=6, random_state=0)
        o.obtain_batch_bandit_feedback(random_state=0)
        return o

    ad = np.zeros((6, 3, 1))
    ad[:, 0, 0] = 1
    out["multiclass/truth"] = (mc, lambda o, k: o.calc_ground_truth_policy_value(**k), dict(action_dist=ad), dict(action_dist="rows3"), info)
    out["multiclass/alpha_e"] = (mc, lambda o, k: o.obtain_action_dist_by_eval_policy(**k), dict(alpha_e=0.5), dict(alpha_e="unit"), info)
    for nm, mp in (("lin-eg", lambda: policy.LinEpsilonGreedy(dim=2, n_actions=3, random_state=0)), ("lin-ucb", lambda: policy.LinUCB(dim=2, n_actions=3, random_state=0))):
        out[nm + "/select"] = (mp, lambda o, k: o.select_action(**k), dict(context=g["context"][:1]), dict(context="onecontext"), info)
    return out


def single(c, group, names, n=24):
    sy = systems(group, n)
    for name in names:
        mk, call, kw, roles, info = sy[name]
        with c.case("legal", system=name):
            want = call(mk(), kw)
            c.step()
        o = mk()
        for arg, role in roles.items():
            for fname, val in role_faults(role, kw[arg], info):
                if n > 100 and "[" in fname and fname[0] != "[" and int(fname.split("[")[1].split("]")[0].split(",")[0]) not in (0, 1, n // 2, n - 1):
                    continue
                with c.case("%s/%s" % (arg, fname), system=name):
                    bad = apply(kw, [(arg, val)])
                    fz = Frozen(bad)
                    c.rejects(lambda: call(o, bad), "%s with %s: %s" % (name, arg, fname), exc=Exception)
                    fz.check(c, "arguments of a rejected call")
                    c.step()
        if group in ("regression", "classification", "slate", "offline"):
            with c.case("repaired", system=name):
                got = call(o, kw)
                c.same(repr(np.asarray(got, float).tolist()), repr(np.asarray(want, float).tolist()), "result of the legal call after rejected ones")
                c.step()


def combined(c, group, names):
    """every proper subset of the arrays changes length together; all pairs of faults in two arguments (value faults at one entry)"""
    sy = systems(group)
    for name in names:
        mk, call, kw, roles, info = sy[name]
        o = mk()
        arrays = [a for a in roles if isinstance(kw[a], np.ndarray)]
        for k in range(2, len(arrays)):
            for sub in itertools.combinations(arrays, k):
                for fn in ("short", "long", "single", "double"):
                    with c.case("group/%s/%s" % (",".join(sub), fn), system=name):
                        bad = dict(kw)
                        for a in sub:
                            bad[a] = dict(length_faults(kw[a]))[fn]
                        c.rejects(lambda: call(o, bad), "%s with %s %s" % (name, fn, sub), exc=Exception)
                        c.step()
        menu = {}
        for arg, role in roles.items():
            keep, seen = [], set()
            for n, v in role_faults(role, kw[arg], info):
                k = n.split("[")[0] + n.split("]")[-1]
                if k not in seen:
                    seen.add(k)
                    keep.append((n, v))
            menu[arg] = keep
        for a1, a2 in itertools.combinations(menu, 2):
            for (n1, v1), (n2, v2) in itertools.product(menu[a1], menu[a2]):
                if n1 == n2 and n1 in ("short", "long", "single", "double"):
                    continue
                with c.case("pair/%s:%s+%s:%s" % (a1, n1, a2, n2), system=name):
                    bad = apply(kw, [(a1, v1), (a2, v2)])
                    c.rejects(lambda: call(o, bad), name, exc=Exception)
                    c.step()


def preload():
    import obp.ope, obp.policy, obp.simulator, obp.dataset  # noqa: F401


def jobs(tier):
    out = [("settings", (g,)) for g in ("models", "torch", "online", "datasets")]
    for g in ("regression", "classification", "slate", "offline", "torch", "replay", "data"):
        names = list(systems(g))
        for i in range(8):
            if names[i::8]:
                out.append(("single", (g, names[i::8])))
                if g != "data":
                    out.append(("combined", (g, names[i::8])))
                    out.append(("single", (g, names[i::8], 1024)))
    return out
