"""C31: reusable objects answer from the arguments of the call (all short call histories)."""
import itertools
import multiprocessing as mp

import numpy as np

from mc.core import Frozen
from mc.checks import c07, c10, c30

ID = "C31"
RULE = ("for every estimator, tuner, nuisance model, offline learner, data generator and reward or policy function: all sequences of calls up to the depth over its entry points x "
        "{log 0, log 1 of the same shape, log 2 of another shape, one set of arrays holding log 0, the same arrays overwritten in place with log 1}, from a fresh object, "
        "a second object of the same class being called with another log before every call; every answer must be the answer a fresh object gives to that call in a process that has done nothing else, "
        "and no call may change its arguments")
BOUNDS = {"quick": "all histories of 2 calls over entry points x 5 argument forms; all histories of 3 calls of the first entry point; logs of 6-24 rounds",
          "thorough": "all histories of 3 calls over entry points x 5 argument forms, of 4 calls of the first entry point"}
ASSUMPTIONS = ["neural learners go on training when fitted again, so they are constructed anew inside the call; answers are compared within 1e-9"]
FORMS = ("log0", "log1", "log2", "array0", "array1")
CONTENT = dict(log0=0, log1=1, log2=2, array0=0, array1=1)
SUB, REF = {}, {}
FIXED = ("pea", "slate_id", "slate_pos", "stratum", "tau", "n_folds", "random_state", "unit", "fixed", "newstratum")


# ---------------------------------------------------------------- arguments
def gran(role, info):
    if role in FIXED:
        return None
    if role in ("sp", "sp_cascade", "sp_item", "ep", "ep_cascade", "ep_item", "slate1"):
        return info["L"]
    if role in ("sdist", "sq"):
        return info["L"] * info["A"]
    return info.get("gran", {}).get(role, 1)


def variants(kw, roles, info):
    """three argument sets: the given one, one of the same shape with every array shifted by its own number of rows, one with fewer rows"""
    x1, x2 = {}, {}
    cut = info.get("cut", 2)
    for k, (a, v) in enumerate(kw.items()):
        role = roles.get(a, "fixed")
        x1[a], x2[a] = v, v
        if not isinstance(v, np.ndarray) or role in ("pea", "fixed"):
            continue
        g = gran(role, info)
        if g is not None:
            x1[a] = np.roll(v, (k + 1) * g, axis=0)
        rows = {"slate_id": info["L"], "slate_pos": info["L"]}.get(role, g or 1)
        if info.get("slate") and rows == 1:
            rows = info["L"] if role in ("reward", "action", "float1") else 1
        x2[a] = v[:-cut * rows] if cut else v
    return [dict(kw), x1, x2]


def entry(o, kw, m):
    return getattr(o, m)(n_bootstrap_samples=5, random_state=1, **kw) if m == "estimate_interval" else getattr(o, m)(**kw)


def subjects():
    """name -> (make, {operation: (call(object, kw), [kw0, kw1, kw2])})"""
    from sklearn.linear_model import LogisticRegression
    from obp import ope

    out = {}
    est = {"value": lambda o, k: entry(o, k, "estimate_policy_value"), "interval": lambda o, k: entry(o, k, "estimate_interval")}
    for fam in ("discrete", "multi", "slate", "continuous"):
        for name, (mk, kw, roles, info) in c10.systems(fam).items():
            info = dict(info, slate=fam == "slate", cut=1 if fam in ("slate", "continuous") else 2)
            v = variants(kw, roles, info)
            out["%s/%s" % (fam, name)] = (mk, {k: (f, v) for k, f in est.items()})
    # candidates wide enough for the selection to depend on the log
    for name, (mk, kw, roles, info) in c10.systems("discrete").items():
        nm = name.split("/")[0]
        if "-t" in nm and name.endswith("L1"):
            lams = [0.0, 0.1, 0.3, 0.9] if nm.startswith("sg") else [0.0, 0.5, 1.0, 2.0, 8.0]
            o = mk()
            a = dict(lambdas=lams, tuning_method=o.tuning_method, use_estimated_pscore=o.use_estimated_pscore)
            v = variants(kw, roles, dict(info, cut=2))
            v.append(dict(v[0], reward=v[0]["reward"] * np.where(np.arange(len(v[0]["reward"])) % 3 == 0, 40.0, 0.01)))
            v = [v[0], v[3], v[2]]
            out["discrete/wide-" + name] = (lambda cl=type(o), a=a: cl(**a), {k: (f, v) for k, f in est.items()})
    emb, epos = c07.big(12, 3, 2, 2, 1, 1)
    for nm, cl in (("mipw", ope.MarginalizedInverseProbabilityWeighting), ("snmipw", ope.SelfNormalizedMarginalizedInverseProbabilityWeighting)):
        n = len(emb["reward"])
        kw = {k: emb[k] for k in ("reward", "action", "action_dist", "pi_b", "action_embed")}
        kw["context"] = np.c_[(np.arange(n) * 5 % 7) / 4.0, (np.arange(n) * 3 % 5) / 2.0]
        roles = dict(reward="reward", action_dist="dist", pi_b="dist", context="context", action="action", action_embed="fixed")
        info = dict(A=3, L=1, cut=0)
        v = variants(kw, roles, info)
        for sel in (None, "greedy"):
            out["discrete/%s-model-%s" % (nm, sel)] = (lambda cl=cl, sel=sel: cl(n_actions=3, embedding_selection_method=sel, pi_a_x_e_estimator=LogisticRegression()), {k: (f, v) for k, f in est.items()})
            out["discrete/%s-model-default-%s" % (nm, sel)] = (lambda cl=cl, sel=sel: cl(n_actions=3, embedding_selection_method=sel), {k: (f, v) for k, f in est.items()})
    # nuisance models and learners: operations of one object grouped
    for g in ("regression", "classification", "slate", "offline"):
        for name, (mk, call, kw, roles, info) in c30.systems(g, 48 if g == "classification" else 24).items():
            pre, op = name.rsplit("/", 1)
            info = dict(info, slate=g == "slate", cut=4 if not (g == "slate" or "predict" == op[:7] or op == "sample_action") else 1)
            key = "%s/%s%s" % (g, pre, "" if op.startswith("fit") else "/fitted")
            out.setdefault(key, (mk, {}))[1][op] = (call, variants(kw, roles, info))
    for name, (mk, call, kw, roles, info) in c30.systems("torch").items():
        pre, op = name.rsplit("/", 1)
        if op == "fit":
            out["torch/" + name] = (lambda mk=mk: mk, {"make+fit": (lambda o, k, call=call: call(o(), k), variants(kw, roles, dict(info, cut=4)))})
        else:
            out.setdefault("torch/%s/fitted" % pre, (mk, {}))[1][op] = (call, variants(kw, roles, dict(info, cut=1)))
    out.update(generators())
    return out


def generators():
    from sklearn.linear_model import LogisticRegression
    from sklearn.tree import DecisionTreeClassifier
    from obp import dataset, ope
    from obp.dataset import synthetic as sy, synthetic_continuous as sc
    from obp.ope import helper
    from obp import utils

    out = {}
    n = 8
    i = np.arange(n)
    ctx = np.c_[(i * 5 % 7) / 4.0, (i * 3 % 5) / 2.0 - 1]
    ctxs = [dict(context=x) for x in (ctx, -ctx[::-1] * 0.75, ctx[:5])]
    acs = (np.eye(3), np.eye(3)[::-1] + 0.25, np.c_[np.eye(3), np.ones(3)])
    # reward functions and behaviour policies: pure functions of (contexts, action contexts, seed)
    v = [dict(context=c["context"], action_context=a, random_state=s) for c, a, s in zip(ctxs, acs, (0, 1, 0))]
    fn = {}
    for f in ("logistic_reward_function", "logistic_polynomial_reward_function", "logistic_sparse_reward_function", "linear_reward_function", "polynomial_reward_function", "sparse_reward_function",
              "linear_behavior_policy", "polynomial_behavior_policy"):
        fn[f] = (lambda o, k, f=f: getattr(sy, f)(**k), v)
    for f in list(fn):
        out["function/" + f] = (lambda: None, {f: fn[f]})
    out["function/all"] = (lambda: None, {f: fn[f] for f in list(fn)[::2]})
    vc = [dict(context=c["context"], action=np.linspace(-1, 2, len(c["context"])) * m, random_state=s) for c, m, s in zip(ctxs, (1, -2, 1), (0, 1, 0))]
    out["function/continuous"] = (lambda: None, {f: (lambda o, k, f=f: getattr(sc, f)(**k), vc) for f in ("linear_reward_funcion_continuous", "quadratic_reward_funcion_continuous")})
    vb = [dict(context=c["context"], random_state=s) for c, s in zip(ctxs, (0, 1, 0))]
    out["function/continuous-behaviour"] = (lambda: None, {"linear_behavior_policy_continuous": (lambda o, k: sc.linear_behavior_policy_continuous(**k), vb)})
    x = ((i * 5) % 7) / 4.0
    vx = [dict(x=x), dict(x=x * x + 1), dict(x=x[:5])]
    out["function/bounds"] = (lambda: None, {"hoeffding": (lambda o, k: helper.estimate_hoeffding_lower_bound(k["x"]), vx), "bernstein": (lambda o, k: helper.estimate_bernstein_lower_bound(k["x"], None), vx),
                                             "student": (lambda o, k: helper.estimate_student_t_lower_bound(k["x"]), vx), "bootstrap": (lambda o, k: utils.estimate_confidence_interval_by_bootstrap(samples=k["x"], n_bootstrap_samples=6, random_state=3), vx)})
    w = np.abs(np.c_[x, 1 + x[::-1], x + 0.5])
    vw = [dict(w=w), dict(w=w[:, ::-1] * 0.5), dict(w=w[:4])]
    out["function/utils"] = (lambda: None, {"softmax": (lambda o, k: utils.softmax(k["w"]), vw), "sigmoid": (lambda o, k: utils.sigmoid(k["w"]), vw),
                                            "sample_action_fast": (lambda o, k: utils.sample_action_fast(k["w"] / k["w"].sum(1, keepdims=True), random_state=2), vw)})
    # generators: a new object of the same seed always yields the same log; helpers of one object do not depend on what was drawn before
    mks = dict(synthetic=lambda **k: dataset.SyntheticBanditDataset(**{**dict(n_actions=3, dim_context=2, reward_function=dataset.logistic_reward_function, behavior_policy_function=dataset.linear_behavior_policy), **k}),
               multi=lambda **k: dataset.SyntheticMultiLoggersBanditDataset(**{**dict(n_actions=3, dim_context=2, betas=[1, 0], rhos=[1, 1], reward_function=dataset.logistic_reward_function), **k}),
               embed=lambda **k: dataset.SyntheticBanditDatasetWithActionEmbeds(**{**dict(n_actions=3, dim_context=2, reward_function=dataset.logistic_reward_function), **k}),
               slate=lambda **k: dataset.SyntheticSlateBanditDataset(**{**dict(n_unique_action=3, len_list=2, dim_context=2, base_reward_function=dataset.logistic_reward_function, behavior_policy_function=dataset.linear_behavior_policy_logit), **k}),
               continuous=lambda **k: dataset.SyntheticContinuousBanditDataset(**{**dict(dim_context=2, reward_function=sc.linear_reward_funcion_continuous, behavior_policy_function=sc.linear_behavior_policy_continuous), **k}))
    for nm, mk in mks.items():
        vs = [dict(random_state=0), dict(random_state=1), dict(random_state=0, dim_context=3)]
        out["generate/" + nm] = (lambda: None, {"new+batch": (lambda o, k, mk=mk: {a: b for a, b in mk(**k).obtain_batch_bandit_feedback(n_rounds=5).items() if b is not None}, vs)})
    er = np.round(np.abs(np.sin(np.arange(24.0))).reshape(8, 3) * 8) / 8
    ad = (er + 0.25) / (er + 0.25).sum(1, keepdims=True)
    vt = [dict(expected_reward=er, action_dist=ad[:, :, None]), dict(expected_reward=er[::-1] * 2, action_dist=np.roll(ad, 3, axis=0)[:, ::-1, None]), dict(expected_reward=er[:5], action_dist=ad[:5, :, None])]
    for nm in ("synthetic", "multi", "embed"):
        out["dataset/" + nm] = (lambda mk=mks[nm]: mk(random_state=3), {"truth": (lambda o, k: o.calc_ground_truth_policy_value(**k), vt)})
        if nm != "embed":
            out["dataset/" + nm][1]["expected"] = (lambda o, k: o.calc_expected_reward(**k), ctxs)
    lg = [dict(context=c["context"], logit=np.round(np.cos(np.arange(3.0 * len(c["context"]))).reshape(-1, 3) * 4 * m) / 4, action=np.array([(r + p * (1 + r % 2)) % 3 for r in range(len(c["context"])) for p in range(2)]))
          for c, m in zip(ctxs, (1, -2, 1))]
    lg[1]["action"] = (lg[1]["action"] + 1) % 3
    sl = {"truth": lambda o, k: o.calc_ground_truth_policy_value(context=k["context"], evaluation_policy_logit_=k["logit"]),
          "pscore": lambda o, k: o.obtain_pscore_given_evaluation_policy_logit(action=k["action"], evaluation_policy_logit_=k["logit"]),
          "optimal": lambda o, k: o.generate_evaluation_policy_pscore(evaluation_policy_type="optimal", context=k["context"], action=k["action"], epsilon=0.25),
          "dist": lambda o, k: o.calc_evaluation_policy_action_dist(action=k["action"], evaluation_policy_logit_=k["logit"])}
    for click, fac in ((None, False), ("cascade", True)):
        out["dataset/slate-%s" % click] = (lambda click=click, fac=fac: mks["slate"](random_state=3, click_model=click, is_factorizable=fac), {op: (f, lg) for op, f in sl.items()})
    out["dataset/continuous"] = (lambda: mks["continuous"](random_state=3), {"truth": (lambda o, k: o.calc_ground_truth_policy_value(context=k["context"], action=k["action"]),
                                                                                     [{a: b for a, b in k.items() if a != "random_state"} for k in vc])})
    X = np.c_[(np.arange(30) * 7 % 11) / 4.0, (np.arange(30) * 5 % 13) / 4.0]
    y = (np.arange(30) * 3 // 4) % 3

    def mc():
        o = dataset.MultiClassToBanditReduction(X=X, y=y, base_classifier_b=DecisionTreeClassifier(max_depth=2, random_state=0), alpha_b=0.5)
        o.split_train_eval(eval_size=12, random_state=0)
        return o

    g = [dict(random_state=0), dict(random_state=1), dict(random_state=2)]
    a = [dict(alpha_e=0.25), dict(alpha_e=0.75), dict(alpha_e=0.5, base_classifier_e=LogisticRegression())]
    pe = np.zeros((12, 3, 1))
    pe[np.arange(12), np.arange(12) % 3] = 1
    t = [dict(action_dist=pe), dict(action_dist=pe[:, [1, 2, 0]]), dict(action_dist=(pe + 0.25) / 1.75)]
    out["dataset/multiclass"] = (mc, {"batch": (lambda o, k: {p: q for p, q in o.obtain_batch_bandit_feedback(**k).items() if q is not None}, g), "policy": (lambda o, k: o.obtain_action_dist_by_eval_policy(**k), a),
                                      "truth": (lambda o, k: o.calc_ground_truth_policy_value(**k), t)})
    return out


# ---------------------------------------------------------------- answers
def norm(x):
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, (tuple, list)) and any(isinstance(v, (np.ndarray, dict, tuple, list, type(None))) for v in x):
        return [norm(v) for v in x]
    if x is None:
        return None
    if hasattr(x, "detach"):
        x = x.detach().numpy()
    return np.array(x, dtype=float)


def differs(a, b):
    if type(a) is not type(b):
        return True
    if isinstance(a, dict):
        return set(a) != set(b) or any(differs(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) != len(b) or any(differs(p, q) for p, q in zip(a, b))
    if a is None:
        return False
    return a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


def copy(kw):
    return {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}


def _reference(task):
    import warnings

    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    name, op, k = task
    mk, ops = SUB[name]
    try:
        return task, norm(ops[op][0](mk(), copy(ops[op][1][k])))
    except Exception as e:
        return task, "%s: %s" % (type(e).__name__, str(e)[:300])


def preload():
    """the answer to every call, each from a process that does nothing else"""
    import obp.ope, obp.policy, obp.simulator, obp.dataset  # noqa: F401

    SUB.update(subjects())
    tasks = [(n, op, k) for n, (_, ops) in SUB.items() for op in ops for k in range(3)]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        REF.update(p.imap_unordered(_reference, tasks, chunksize=1))


def run(c, name, depth, first_only):
    mk, ops = SUB[name]
    names = list(ops)[:1] if first_only else list(ops)
    forms = [f for f in FORMS if not f.startswith("array") or any(isinstance(v, np.ndarray) for _, vs in ops.values() for v in vs[0].values())]
    for op in names:
        for k in range(3):
            with c.case("reference/%s/%s" % (name, op), log=k):
                r = REF[(name, op, k)]
                c.true(not isinstance(r, str), "a legal call on a fresh object raised %s" % r)
                c.outcome((name, op, repr(r)))
    for seq in itertools.product(itertools.product(names, forms), repeat=depth):
        with c.case("history/%s" % name, calls=[list(s) for s in seq]):
            o, other = mk(), mk()
            arrays = {}
            for step, (op, form) in enumerate(seq):
                f, vs = ops[op]
                k = CONTENT[form]
                f(other, copy(vs[(k + 1 + step) % 3]))
                kw = copy(vs[k])
                if form.startswith("array"):
                    for a, v in kw.items():
                        if not isinstance(v, np.ndarray):
                            continue
                        held = arrays.setdefault((op, a), np.array(v))
                        if held.shape == v.shape and held.dtype == v.dtype:
                            held[...] = v
                            kw[a] = held
                fz = Frozen(kw)
                got = norm(f(o, kw))
                c.step(2)
                fz.check(c, "arguments of %s" % op)
                exp = REF[(name, op, k)]
                if differs(got, exp):
                    c.fail("%s: call %d (%s on %s) gave %s, a fresh object gives %s" % (name, step + 1, op, form, str(got)[:150], str(exp)[:150]))


def jobs(tier):
    th = tier == "thorough"
    out = []
    for name, (_, ops) in SUB.items():
        slow = name.startswith(("torch", "classification", "generate", "regression/logit"))
        out.append(("run", (name, 3 if th and not slow and len(ops) < 4 else 2, False)))
        out.append(("run", (name, (4 if th else 3) - bool(slow and not th), True)))
    return out
