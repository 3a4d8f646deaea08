"""C09: the OPE front ends report what each estimator reports on its own inputs."""
import itertools

import numpy as np

from mc.checks import c01, c04, c05, c06, c07

ID = "C09"
RULE = ("all ordered subsets up to size 2, all subsets of size 3, and the full list in several orders of an estimator menu x every form (shared array / per-estimator dict with different arrays / dict with unrelated keys) of each auxiliary input "
        "x every reporting method; each reported number is compared with a fresh estimator called on its own; histories of calls with different evaluation policies on one front end")
BOUNDS = {"quick": "11 discrete, 6 multi-logger, 7 slate, 6 continuous estimators; 3 logs each (positive/negative/zero mean reward)",
          "thorough": "same with subsets of size 4 and 5 logs"}
ASSUMPTIONS = []
SEED = 5


def discrete_menu():
    from obp import ope
    return {
        "rm": lambda: ope.ReplayMethod(), "dm": lambda: ope.DirectMethod(), "ipw": lambda: ope.InverseProbabilityWeighting(lambda_=3.0),
        "ipw-e": lambda: ope.InverseProbabilityWeighting(use_estimated_pscore=True, estimator_name="ipw-e"),
        "snipw": lambda: ope.SelfNormalizedInverseProbabilityWeighting(), "dr": lambda: ope.DoublyRobust(),
        "dr-e": lambda: ope.DoublyRobust(use_estimated_pscore=True, lambda_=2.0, estimator_name="dr-e"),
        "sg-dr": lambda: ope.SubGaussianDoublyRobust(lambda_=0.25), "b-ipw": lambda: ope.BalancedInverseProbabilityWeighting(),
        "mipw": lambda: ope.MarginalizedInverseProbabilityWeighting(n_actions=3),
        "dr-t": lambda: ope.DoublyRobustTuning(lambdas=[0.5, 1.0, 3.0], estimator_name="dr-t"),
        "dm2": lambda: ope.DirectMethod(estimator_name="dm2"),
    }


NEEDS = {"dm": ("estimated_rewards_by_reg_model",), "dm2": ("estimated_rewards_by_reg_model",), "dr": ("estimated_rewards_by_reg_model",), "ipw-e": ("estimated_pscore",),
         "dr-e": ("estimated_rewards_by_reg_model", "estimated_pscore"), "sg-dr": ("estimated_rewards_by_reg_model",), "dr-t": ("estimated_rewards_by_reg_model",),
         "b-ipw": ("estimated_importance_weights",), "mipw": ("action_embed", "pi_b", "p_e_a"),
         "bal-ipw-e": ("estimated_pscore_avg",), "w-ipw-e": ("estimated_pscore",), "naive-dr": ("estimated_rewards_by_reg_model",), "bal-dr": ("estimated_rewards_by_reg_model",),
         "w-dr-e": ("estimated_rewards_by_reg_model", "estimated_pscore"), "k-dr": ("estimated_rewards_by_reg_model",), "k-dr2": ("estimated_rewards_by_reg_model",)}


def discrete_log(i, shift=0):
    n, L = ((12, 1), (20, 2), (9, 1), (33, 3), (2, 1))[i]
    log, pos = c01.ladder_log(n, 3, L, i + 2)
    if i == 1:
        log["reward"] = -np.abs(log["reward"]) - 0.5
    if i == 2:
        log["reward"] = np.tile([1.0, -1.0, 0.0], 3)[:n]
    fb = dict(n_rounds=n, n_actions=3, action=log["action"], position=pos if L > 1 else None, reward=log["reward"], context=np.ones((n, 2)), pscore=log["pscore"])
    emb, _ = c07.big(n, 3, 2, 2, L, i)
    aux = {k: log[k] for k in ("estimated_rewards_by_reg_model", "estimated_pscore", "estimated_importance_weights")}
    aux.update(action_embed=emb["action_embed"], pi_b=emb["pi_b"], p_e_a=emb["p_e_a"])
    dists = [log["action_dist"], c01.ladder_log(n, 3, L, i + 5)[0]["action_dist"]]
    return fb, aux, dists


def variant(key, arr, j):
    """a different legal array of the same kind, for the j-th estimator"""
    if j == 0:
        return arr
    if key in ("pi_b", "p_e_a"):
        v = arr + 0.125 * j
        return v / v.sum(axis=1, keepdims=True)
    if key == "action_embed":
        return (arr + j) % 2
    if key in ("estimated_pscore", "estimated_pscore_avg"):
        return arr / (1.0 + 0.5 * j)
    return arr + 0.25 * j


def forms(names, aux, form):
    """returns kwargs for the front end and per-estimator kwargs"""
    kw, per = {}, {n: {} for n in names}
    for key, arr in aux.items():
        users = [n for n in names if key in NEEDS.get(n, ())]
        if not users and form != "shared-all":
            continue
        f = form
        if form == "mixed":
            f = "dict" if len(key) % 2 else "shared"
        if f.startswith("shared"):
            kw[key] = arr
            for n in names:
                per[n][key] = arr
        else:
            d = {"no-such-estimator": variant(key, arr, 3)} if f == "dict-extra" else {}
            for j, n in enumerate(reversed(users)):
                d[n] = variant(key, arr, j + (1 if f == "dict-extra" else 0))
            kw[key] = d
            for n in users:
                per[n][key] = d[n]
    return kw, per


def report_all(c, fe, menu, names, base, evkw, kw, per, mean_reward, method_subset=None):
    """compare every reporting method with individual calls"""
    exp_v, exp_i = {}, {}
    for n in names:
        args = dict(base, **evkw)
        args.update(per[n])
        exp_v[n] = float(menu[n]().estimate_policy_value(**args))
        exp_i[n] = menu[n]().estimate_interval(alpha=0.2, n_bootstrap_samples=11, random_state=SEED, **args)
    c.step(2 * len(names))

    def cmpv(d, what):
        c.same(sorted(d), sorted(names), what + ": estimators reported")
        for n in names:
            c.close(d[n], exp_v[n], "%s[%s]" % (what, n), atol=1e-11 * min(1.0, abs(exp_v[n])))

    def cmpi(d, what):
        c.same(sorted(d), sorted(names), what + ": estimators reported")
        for n in names:
            c.same(sorted(d[n]), sorted(exp_i[n]), what + " keys")
            for k in exp_i[n]:
                c.close(d[n][k], exp_i[n][k], "%s[%s][%s]" % (what, n, k))

    cmpv(fe.estimate_policy_values(**evkw, **kw), "estimate_policy_values")
    cmpi(fe.estimate_intervals(**evkw, **kw, alpha=0.2, n_bootstrap_samples=11, random_state=SEED), "estimate_intervals")
    vdf, idf = fe.summarize_off_policy_estimates(**evkw, **kw, alpha=0.2, n_bootstrap_samples=11, random_state=SEED)
    cmpv(vdf["estimated_policy_value"].to_dict(), "summary")
    cmpi({n: idf.loc[n].to_dict() for n in idf.index}, "interval summary")
    rel = vdf["relative_estimated_policy_value"].to_dict()
    for n in names:
        if mean_reward <= 0:
            c.true(np.isnan(rel[n]), "relative value must be nan for a non-positive on-policy value, got %r" % rel[n])
        else:
            c.close(rel[n], exp_v[n] / mean_reward, "relative value[%s]" % n, rtol=1e-8)
    for gt in (0.75, -1.5, 0.0):
        for metric in ("se", "relative-ee"):
            if metric == "relative-ee" and gt == 0.0:
                for m in (fe.evaluate_performance_of_estimators, fe.summarize_estimators_comparison):
                    c.rejects(lambda: m(ground_truth_policy_value=gt, metric=metric, **evkw, **kw), "relative error against a zero ground truth")
                continue
            e = {n: (exp_v[n] - gt) ** 2 if metric == "se" else abs((exp_v[n] - gt) / gt) for n in names}
            d = fe.evaluate_performance_of_estimators(ground_truth_policy_value=gt, metric=metric, **evkw, **kw)
            df = fe.summarize_estimators_comparison(ground_truth_policy_value=gt, metric=metric, **evkw, **kw)
            for what, dd in (("evaluate_performance", d), ("comparison table", df[metric].to_dict())):
                c.same(sorted(dd), sorted(names), what + ": estimators reported")
                for n in names:
                    c.close(dd[n], e[n], "%s[%s] %s gt=%s" % (what, n, metric, gt))
    c.step(16)
    c.outcome(tuple(round(v, 6) for v in exp_v.values()))


def subsets(menu, th):
    names = list(menu)
    for k in (1, 2):
        yield from itertools.permutations(names, k)
    for k in (3, 4) if th else (3,):
        yield from itertools.combinations(names, k)
    yield tuple(names)
    yield tuple(reversed(names))
    yield tuple(names[3:] + names[:3])


def discrete(c, ilog, form, part, nparts, th):
    from obp.ope import OffPolicyEvaluation

    fb, aux, dists = discrete_log(ilog)
    menu = discrete_menu()
    for k, names in enumerate(subsets(menu, th)):
        if k % nparts != part:
            continue
        if "mipw" in names and "dict" in form and False:
            continue
        with c.case("discrete", log=ilog, names=names, form=form):
            fe = OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[n]() for n in names])
            kw, per = forms(names, aux, form)
            base = {x: fb[x] for x in ("action", "position", "reward", "context", "pscore")}
            for d in (0, 1) if k % 7 == 0 else (k % 2,):
                report_all(c, fe, menu, names, base, dict(action_dist=dists[d]), kw, per, float(fb["reward"].mean()))


def misrouted(c):
    """an estimator left out of the per-estimator dict must not silently get another one's input; missing inputs are refused"""
    from obp.ope import OffPolicyEvaluation

    fb, aux, dists = discrete_log(0)
    menu = discrete_menu()
    for a, b in itertools.permutations(menu, 2):
        for key in NEEDS.get(a, ()):
            if key == "p_e_a":
                continue
            names = (a, b)
            kw, _ = forms(names, aux, "dict")
            kw[key] = {n: v for n, v in kw[key].items() if n != a}
            kw[key]["other"] = aux[key]
            with c.case("missing-entry", a=a, b=b, key=key):
                fe = OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[n]() for n in names])
                for m in ("estimate_policy_values", "estimate_intervals", "summarize_off_policy_estimates"):
                    c.rejects(lambda: getattr(fe, m)(action_dist=dists[0], **kw), "%s without %s" % (a, key))
                c.rejects(lambda: fe.evaluate_performance_of_estimators(ground_truth_policy_value=1.0, action_dist=dists[0], **kw), "%s without %s" % (a, key))
                c.step(4)
    for key in ("action", "position", "reward", "context"):
        with c.case("missing-key", key=key):
            bad = {k: v for k, v in fb.items() if k != key}
            c.rejects(lambda: OffPolicyEvaluation(bandit_feedback=bad, ope_estimators=[menu["dm"]()]), "log without " + key, exc=(RuntimeError,))
    with c.case("no-pscore"):
        nb = {k: v for k, v in fb.items() if k != "pscore"}
        fe = OffPolicyEvaluation(bandit_feedback=nb, ope_estimators=[menu["dm"](), menu["rm"](), menu["ipw-e"]()])
        kw, per = forms(("dm", "rm", "ipw-e"), aux, "shared")
        report_all(c, fe, menu, ("dm", "rm", "ipw-e"), {k: nb[k] for k in ("action", "position", "reward", "context")}, dict(action_dist=dists[0]), kw, per, float(fb["reward"].mean()))
    for metric in ("mse", "", None, "SE"):
        with c.case("metric", metric=metric):
            fe = OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu["rm"]()])
            c.rejects(lambda: fe.evaluate_performance_of_estimators(ground_truth_policy_value=1.0, action_dist=dists[0], metric=metric), "metric %r" % metric)


def histories(c, depth):
    """one front end, several evaluation policies and forms in every order"""
    from obp.ope import OffPolicyEvaluation

    fb, aux, dists = discrete_log(0)
    menu = discrete_menu()
    names = ("dr", "ipw-e", "mipw", "dr-t", "snipw")
    ops = list(itertools.product((0, 1), ("shared", "dict", "mixed")))
    for seq in itertools.product(range(len(ops)), repeat=depth):
        with c.case("history", seq=[ops[i] for i in seq]):
            fe = OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[n]() for n in names])
            base = {x: fb[x] for x in ("action", "position", "reward", "context", "pscore")}
            for i in seq:
                d, form = ops[i]
                kw, per = forms(names, aux, form)
                report_all(c, fe, menu, names, base, dict(action_dist=dists[d]), kw, per, float(fb["reward"].mean()))


def scales(c, sc, shift):
    """tiny, huge, exactly zero and barely positive on-policy values, in all four front ends"""
    from obp import ope

    def rew(r):
        r = np.asarray(r, dtype=float)
        r = r - r.mean() if shift == "zero" else r - r.mean() + (np.abs(r).max() + 1.0) * (1e-6 if shift == "barely" else 1.0)
        if shift == "zero":
            r = np.round(r * 64) / 64
            r[0] -= r.sum()
            assert r.mean() == 0.0
        return r * sc

    fb, aux, dists = discrete_log(0)
    fb = dict(fb, reward=rew(fb["reward"]))
    menu = discrete_menu()
    for names in (("dm",), ("ipw", "dr", "snipw"), tuple(menu)):
        with c.case("scales", family="discrete", scale=sc, shift=shift, names=names):
            kw, per = forms(names, aux, "shared")
            fe = ope.OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[n]() for n in names])
            report_all(c, fe, menu, names, {x: fb[x] for x in ("action", "position", "reward", "context", "pscore")}, dict(action_dist=dists[0]), kw, per, float(fb["reward"].mean()))
    n = 12
    log, _ = c01.ladder_log(n, 3, 1, 1)
    i = np.arange(n)
    fb = dict(action=log["action"], position=None, reward=rew(log["reward"]), pscore=log["pscore"], context=np.ones((n, 1)), pscore_avg=log["pscore"] / 2 + 0.125, stratum_idx=(i * 3 % 7) % 2)
    menu = multi_menu()
    names = ("naive-ipw", "naive-dr", "dm")
    with c.case("scales", family="multi", scale=sc, shift=shift):
        kw, per = forms(names, dict(estimated_rewards_by_reg_model=log["estimated_rewards_by_reg_model"]), "shared")
        fe = ope.MultiLoggersOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
        report_all(c, fe, menu, names, {x: fb[x] for x in ("action", "position", "reward", "pscore", "pscore_avg", "stratum_idx")}, dict(action_dist=log["action_dist"]), kw, per, float(fb["reward"].mean()))
    L, A, ns = 2, 3, 4
    log = slate_log(ns, L, A, 0)
    log["reward"] = rew(log["reward"])
    fbk = ("slate_id", "action", "reward", "position", "pscore", "pscore_item_position", "pscore_cascade")
    menu = {e().estimator_name: e for e in [(lambda kk=k: dict((a, e) for a, _, e in c05.ips_ests(L))[kk]) for k in ("sips", "iips", "rips")]}
    with c.case("scales", family="slate", scale=sc, shift=shift):
        fe = ope.SlateOffPolicyEvaluation(bandit_feedback=dict({k: log[k] for k in fbk}, context=np.ones((ns, 1))), ope_estimators=[menu[x]() for x in menu])
        report_all(c, fe, menu, tuple(menu), {k: log[k] for k in fbk}, {k: v for k, v in log.items() if k not in fbk}, {}, {x: {} for x in menu}, float(log["reward"].sum()) / ns)
    K = ope.KernelizedInverseProbabilityWeighting
    fb = dict(action=((i * 7) % 9) / 4.0, reward=rew(((i * 5) % 7) / 2.0), pscore=((i % 4) + 1) / 4.0)
    menu = {"k-ipw": lambda: K(kernel="gaussian", bandwidth=1.0, estimator_name="k-ipw"), "k-ipw2": lambda: K(kernel="epanechnikov", bandwidth=2.5, estimator_name="k-ipw2")}
    with c.case("scales", family="continuous", scale=sc, shift=shift):
        fe = ope.ContinuousOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in menu])
        report_all(c, fe, menu, tuple(menu), dict(action_by_behavior_policy=fb["action"], reward=fb["reward"], pscore=fb["pscore"]), dict(action_by_evaluation_policy=((i * 5 + 1) % 8) / 4.0), {}, {x: {} for x in menu}, float(fb["reward"].mean()))


# ---- other families -------------------------------------------------------------
def multi_menu():
    from obp import ope
    return {"naive-ipw": lambda: ope.MultiLoggersNaiveInverseProbabilityWeighting(estimator_name="naive-ipw"),
            "bal-ipw-e": lambda: ope.MultiLoggersBalancedInverseProbabilityWeighting(use_estimated_pscore=True, estimator_name="bal-ipw-e"),
            "w-ipw-e": lambda: ope.MultiLoggersWeightedInverseProbabilityWeighting(use_estimated_pscore=True, estimator_name="w-ipw-e"),
            "naive-dr": lambda: ope.MultiLoggersNaiveDoublyRobust(lambda_=2.0, estimator_name="naive-dr"),
            "bal-dr": lambda: ope.MultiLoggersBalancedDoublyRobust(estimator_name="bal-dr"),
            "w-dr-e": lambda: ope.MultiLoggersWeightedDoublyRobust(use_estimated_pscore=True, estimator_name="w-dr-e"),
            "dm": lambda: ope.DirectMethod()}


def multi(c, ilog, form, th):
    from obp.ope import MultiLoggersOffPolicyEvaluation

    n, L = ((12, 1), (20, 2), (30, 1))[ilog]
    log, pos = c01.ladder_log(n, 3, L, ilog + 1)
    if ilog == 1:
        log["reward"] = log["reward"] - 3.0
    i = np.arange(n)
    fb = dict(action=log["action"], position=pos if L > 1 else None, reward=log["reward"], pscore=log["pscore"], context=np.ones((n, 1)),
              pscore_avg=log["pscore"] / 2 + 0.125, stratum_idx=(i * 3 % 7) % 2)
    aux = dict(estimated_rewards_by_reg_model=log["estimated_rewards_by_reg_model"], estimated_pscore=log["estimated_pscore"], estimated_pscore_avg=((i + 1) % 5 + 1) / 6.0)
    menu = multi_menu()
    for k, names in enumerate(subsets(menu, th)):
        with c.case("multi", log=ilog, names=names, form=form):
            fe = MultiLoggersOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
            kw, per = forms(names, aux, form)
            base = {x: fb[x] for x in ("action", "position", "reward", "pscore", "pscore_avg", "stratum_idx")}
            report_all(c, fe, menu, names, base, dict(action_dist=log["action_dist"]), kw, per, float(fb["reward"].mean()))


def slate(c, ilog, th):
    from obp import ope

    L, A = ((2, 3), (3, 4), (2, 2))[ilog]
    ns = (4, 6, 3)[ilog]
    log = slate_log(ns, L, A, ilog)
    menu = {k: (lambda kk=k, ii=i: dict((a, e) for a, _, e in c05.ips_ests(L))[kk]) for i, k in enumerate(("sips", "iips", "rips", "snsips", "sniips", "snrips"))}
    menu = {menu[k]().estimator_name: menu[k] for k in menu}
    cdr = ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A)
    menu[cdr.estimator_name] = lambda: ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A)
    fbk = ("slate_id", "action", "reward", "position", "pscore", "pscore_item_position", "pscore_cascade")
    fb = {k: log[k] for k in fbk}
    fb["context"] = np.ones((ns, 1))
    ev = {k: v for k, v in log.items() if k not in fbk}
    mean_reward = float(log["reward"].sum()) / len(set(log["slate_id"].tolist()))
    for names in subsets(menu, th):
        with c.case("slate", log=ilog, names=names):
            fe = ope.SlateOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
            report_all(c, fe, menu, names, {k: log[k] for k in fbk}, ev, {}, {n: {} for n in names}, mean_reward)
            # only the inputs some estimator needs
            need = set()
            for x in names:
                if "cascade" in x:
                    need |= {"evaluation_policy_pscore_cascade", "evaluation_policy_action_dist", "q_hat"}
            if len(names) == 1 and need:
                ev2 = {k: ev[k] for k in need}
                report_all(c, fe, menu, names, {k: log[k] for k in fbk}, ev2, {}, {n: {} for n in names}, mean_reward)


def slate_log(ns, L, A, salt):
    i = np.arange(ns * L)
    pos = i % L
    return dict(slate_id=np.repeat(np.arange(ns) * 2 + 1, L), position=pos, action=(i * 3 + salt) % A, reward=((i * 5 + salt) % 4) / 2.0 - (0.0 if salt != 1 else 3.0),
                pscore=np.repeat((np.arange(ns) % 4 + 1) / 8.0, L), pscore_item_position=(i % 5 + 1) / 8.0, pscore_cascade=(np.repeat(np.arange(ns) % 4 + 1, L) / 8.0) * (1 + (L - 1 - pos) * 0.25),
                evaluation_policy_pscore=np.repeat(((np.arange(ns) + 2) % 5) / 8.0, L), evaluation_policy_pscore_item_position=((i + 2) % 6) / 8.0,
                evaluation_policy_pscore_cascade=np.repeat(((np.arange(ns) + 2) % 5) / 8.0, L) * (1 + (L - 1 - pos) * 0.25),
                q_hat=((np.arange(ns * L * A) * 7 + salt) % 5) / 4.0, evaluation_policy_action_dist=_rows(ns * L, A, salt).ravel())


def _rows(n, A, salt):
    v = ((np.arange(n)[:, None] * 3 + np.arange(A)[None, :] * 2 + salt) % 4 + 0.5)
    return v / v.sum(axis=1, keepdims=True)


def continuous(c, ilog, form, th):
    from obp import ope

    n = (5, 12, 30)[ilog]
    i = np.arange(n)
    fb = dict(action=((i * 7) % 9) / 4.0, reward=((i * 5) % 7) / 2.0 - (0.5 if ilog != 1 else 4.0), pscore=((i % 4) + 1) / 4.0)
    aux = dict(estimated_rewards_by_reg_model=((i * 3) % 5) / 4.0)
    evs = [((i * 5 + 1) % 8) / 4.0, ((i * 3 + 2) % 8) / 4.0]
    K = ope.KernelizedInverseProbabilityWeighting
    menu = {"k-ipw": lambda: K(kernel="gaussian", bandwidth=1.0, estimator_name="k-ipw"), "k-ipw2": lambda: K(kernel="epanechnikov", bandwidth=2.5, estimator_name="k-ipw2"),
            "k-snipw": lambda: ope.KernelizedSelfNormalizedInverseProbabilityWeighting(kernel="gaussian", bandwidth=0.5, estimator_name="k-snipw"),
            "k-dr": lambda: ope.KernelizedDoublyRobust(kernel="triangular", bandwidth=2.0, estimator_name="k-dr"),
            "k-dr2": lambda: ope.KernelizedDoublyRobust(kernel="cosine", bandwidth=1.5, estimator_name="k-dr2")}
    for names in subsets(menu, th):
        fe = None
        for ev in evs:
            with c.case("continuous", log=ilog, names=names, form=form, ev=ev):
                fe = fe or ope.ContinuousOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
                kw, per = forms(names, aux, form)
                base = dict(action_by_behavior_policy=fb["action"], reward=fb["reward"], pscore=fb["pscore"])
                per = {k: dict(v) for k, v in per.items()}
                report_all(c, fe, menu, names, base, dict(action_by_evaluation_policy=ev), kw, per, float(fb["reward"].mean()))


FORMS = ("shared", "shared-all", "dict", "dict-extra", "mixed")


def jobs(tier):
    th = tier == "thorough"
    out = [("misrouted", ())]
    for il in range(5 if th else 3):
        for f in FORMS:
            if il and f == "shared-all":
                continue
            for p in range(8):
                out.append(("discrete", (il, f, p, 8, th)))
    out += [("scales", (sc, sh)) for sc in (2.0**-30, 1.0, 2.0**30) for sh in ("zero", "barely", "positive")]
    out.append(("histories", (3 if th else 2,)))
    for il in range(3):
        for f in FORMS:
            out.append(("multi", (il, f, th)))
            out.append(("continuous", (il, f, th)))
        out.append(("slate", (il, th)))
    return out
