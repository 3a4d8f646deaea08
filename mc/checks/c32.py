"""C32: figures of the OPE front ends show what the estimators report."""
import itertools
import os
import pathlib
import shutil
import tempfile

import numpy as np

from mc.checks import c01, c05, c09

ID = "C32"
RULE = ("all single estimators, all ordered pairs and the full menu of every front end x form of the auxiliary inputs (shared array, per-estimator dict) x absolute or relative x saved or not; "
        "one to three evaluation policies for the comparison figures; the bars (height, label), panels (title) and intervals of the drawn figure are read back and compared with fresh estimators called on their own")
BOUNDS = {"quick": "12 discrete, 7 multi-logger, 7 slate, 3 continuous estimators; 3 logs per front end, 1-2 positions", "thorough": "also all subsets of three estimators"}
ASSUMPTIONS = ["the artists of the figure object are what a viewer sees; rasterisation is matplotlib's"]


class Figures:
    """records every figure created while active"""

    def __enter__(self):
        import matplotlib.figure as mf
        import matplotlib.pyplot as plt

        plt.close("all")
        self.figs, self.orig, self.mf = [], mf.Figure.__init__, mf

        def init(fig, *a, **k):
            self.orig(fig, *a, **k)
            self.figs.append(fig)

        mf.Figure.__init__ = init
        return self

    def __exit__(self, *e):
        import matplotlib.pyplot as plt

        self.mf.Figure.__init__ = self.orig
        plt.close("all")


def read(ax):
    """[(label, height, lower, upper)] in drawing order from left to right"""
    from matplotlib.collections import LineCollection
    from matplotlib.patches import Rectangle

    bars = sorted(((p.get_x() + p.get_width() / 2, p.get_y() + p.get_height()) for p in ax.patches if isinstance(p, Rectangle)), key=lambda t: t[0])
    if not all(t.get_text() for t in ax.get_xticklabels()):
        ax.figure.canvas.draw()  # labels of category axes are set when drawn
    ticks = sorted(zip(ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]))
    seg = []
    for l in ax.lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        if len(x) >= 2 and np.ptp(x) < 1e-9:
            seg.append((x[0], y.min(), y.max()))
    for co in ax.collections:
        if isinstance(co, LineCollection):
            for s in co.get_segments():
                if len(s) >= 2 and np.ptp(s[:, 0]) < 1e-9:
                    seg.append((s[0, 0], s[:, 1].min(), s[:, 1].max()))
    out = []
    for k, (x, h) in enumerate(bars):
        lab = [t for p, t in ticks if abs(p - x) < 0.25]
        iv = [(a, b) for p, a, b in seg if abs(p - x) < 0.25]
        out.append((lab[0] if lab else None, float(h), min((a for a, _ in iv), default=None), max((b for _, b in iv), default=None)))
    return out


def compare(c, ax, names, values, what, spans=None):
    got = read(ax)
    c.same(sorted(str(g[0]).lower() for g in got), sorted(n.lower() for n in names), what + ": labels")
    got = {str(g[0]).lower(): g for g in got}
    for n in names:
        _, h, lo, hi = got[n.lower()]
        c.close(h, values[n], "%s: bar of %s" % (what, n), rtol=1e-8, atol=1e-10)
        c.true(lo is not None, "%s: no interval for %s" % (what, n))
        if spans is not None:
            c.close((lo, hi), spans[n], "%s: interval of %s" % (what, n), rtol=1e-8, atol=1e-10)
    return {n: (got[n.lower()][2], got[n.lower()][3]) for n in names}


def draw(c, call, scratch, save, name):
    """runs call(**figure arguments); returns the figure"""
    import matplotlib.pyplot as plt

    with Figures() as fs:
        before = set(os.listdir(scratch))
        kw = dict(fig_dir=pathlib.Path(scratch)) if save else {}
        if save and name:
            kw["fig_name"] = name
        call(**kw)
        c.step()
        new = set(os.listdir(scratch)) - before
        c.same(sorted(new), [name or "estimated_policy_value.png"] if save else [], "files written")
        for f in new:
            c.true(os.path.getsize(os.path.join(scratch, f)) > 100, "empty figure file")
            os.remove(os.path.join(scratch, f))
        figs = [f for f in fs.figs if f.axes]
        c.same(len(figs), 1, "figures drawn")
        return figs[0] if figs else None


class Scratch:
    def __enter__(self):
        self.old, self.d = os.getcwd(), tempfile.mkdtemp(prefix="c32-")
        os.chdir(self.d)
        return self.d

    def __exit__(self, *e):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def subsets(menu, th):
    names = list(menu)
    for k in (1, 2):
        yield from itertools.permutations(names, k)
    if th:
        yield from itertools.combinations(names, 3)
    yield tuple(names)
    yield tuple(reversed(names))


def one(c, scratch, fe, menu, names, base, evkw, kw, per, mean_reward, k):
    """single-policy figures: absolute and relative, wide and narrow interval"""
    vals = {n: float(menu[n]().estimate_policy_value(**dict(base, **evkw, **per[n]))) for n in names}
    rel = k % 3 == 1 and mean_reward != 0
    v = {n: x / mean_reward for n, x in vals.items()} if rel else vals
    spans = []
    for alpha in (0.05, 0.5) if len(names) == 1 or k % 6 == 0 else (0.05,):
        fig = draw(c, lambda **f: fe.visualize_off_policy_estimates(**evkw, **kw, alpha=alpha, is_relative=rel, n_bootstrap_samples=60, random_state=3, **f), scratch, k % 2 == 0, (None, "x y.png", "f.pdf")[k % 3])
        c.same(len(fig.axes), 1, "panels")
        spans.append(compare(c, fig.axes[0], names, v, "figure"))
    if len(spans) == 2:
        for n in names:
            wide, narrow = spans[0][n][1] - spans[0][n][0], spans[1][n][1] - spans[1][n][0]
            c.true(narrow < wide or wide <= 1e-12, "the 50%% interval of %s is as wide as the 95%% interval" % n)
            c.true(spans[0][n][0] <= spans[1][n][0] + 1e-9 and spans[1][n][1] <= spans[0][n][1] + 1e-9, "the 50%% interval of %s lies inside the 95%% interval" % n)


def several(c, scratch, fe, menu, names, base, evname, evs, labels, kw, per, mean_reward, k):
    """comparison of several policies: one panel per estimator, one bar per policy"""
    rel = k % 2 == 1 and mean_reward != 0
    fig = draw(c, lambda **f: fe.visualize_off_policy_estimates_of_multiple_policies(labels, evs, **kw, is_relative=rel, n_bootstrap_samples=15, random_state=3, **f), scratch, k % 3 != 2, (None, "p q.png", "g.svg")[k % 3])
    panels = {a.get_title().lower(): a for a in fig.axes}
    c.same(sorted(panels), sorted(n.lower() for n in names), "panels")
    for n in names:
        v = {l: float(menu[n]().estimate_policy_value(**dict(base, **{evname: e}, **per[n]))) / (mean_reward if rel else 1.0) for l, e in zip(labels, evs)}
        compare(c, panels[n.lower()], labels, v, "panel of %s" % n)


def discrete_menu():
    """with tuned estimators whose choice is neither the first nor the last candidate"""
    from obp import ope

    m = c09.discrete_menu()
    m["ipw-t"] = lambda: ope.InverseProbabilityWeightingTuning(lambdas=[0.125, 2.0, 0.5, 1.0, 0.25], tuning_method="mse", estimator_name="ipw-t")
    m["sg-t"] = lambda: ope.SubGaussianInverseProbabilityWeightingTuning(lambdas=[0.05, 0.9, 0.0, 0.3], tuning_method="slope", use_estimated_pscore=True, estimator_name="sg-t")
    return m


def discrete(c, ilog, form, part, nparts, th):
    from obp.ope import OffPolicyEvaluation

    fb, aux, dists = c09.discrete_log(ilog)
    menu = discrete_menu()
    base = {x: fb[x] for x in ("action", "position", "reward", "context", "pscore")}
    with Scratch() as scratch:
        for k, names in enumerate(subsets(menu, th)):
            if k % nparts != part:
                continue
            c09.NEEDS["sg-t"] = ("estimated_pscore",)
            kw, per = c09.forms(names, aux, form)
            with c.case("discrete", log=ilog, names=names, form=form):
                fe = OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[n]() for n in names])
                one(c, scratch, fe, menu, names, base, dict(action_dist=dists[k % 2]), kw, per, float(fb["reward"].mean()), k // nparts)
            if len(names) == 1 or k % 5 == 0:
                for m in (1, 2, 3):
                    with c.case("discrete-policies", log=ilog, names=names, form=form, policies=m):
                        fe = OffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[n]() for n in names])
                        several(c, scratch, fe, menu, names, base, "action_dist", [dists[0], dists[1], (dists[0] + dists[1]) / 2][:m], ["pol %d" % q for q in range(m)], kw, per, float(fb["reward"].mean()), k // nparts + m)


def multi(c, ilog, form, th):
    from obp.ope import MultiLoggersOffPolicyEvaluation

    n, L = ((12, 1), (20, 2), (30, 1))[ilog]
    log, pos = c01.ladder_log(n, 3, L, ilog + 1)
    i = np.arange(n)
    fb = dict(action=log["action"], position=pos if L > 1 else None, reward=log["reward"], pscore=log["pscore"], context=np.ones((n, 1)), pscore_avg=log["pscore"] / 2 + 0.125, stratum_idx=(i * 3 % 7) % 2)
    aux = dict(estimated_rewards_by_reg_model=log["estimated_rewards_by_reg_model"], estimated_pscore=log["estimated_pscore"], estimated_pscore_avg=((i + 1) % 5 + 1) / 6.0)
    menu = c09.multi_menu()
    base = {x: fb[x] for x in ("action", "position", "reward", "pscore", "pscore_avg", "stratum_idx")}
    d2 = c01.ladder_log(n, 3, L, ilog + 4)[0]["action_dist"]
    with Scratch() as scratch:
        for k, names in enumerate(subsets(menu, th)):
            kw, per = c09.forms(names, aux, form)
            with c.case("multi", log=ilog, names=names, form=form):
                fe = MultiLoggersOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
                one(c, scratch, fe, menu, names, base, dict(action_dist=log["action_dist"]), kw, per, float(fb["reward"].mean()), k)
            if len(names) == 1 or k % 5 == 0:
                for m in (1, 2):
                    with c.case("multi-policies", log=ilog, names=names, form=form, policies=m):
                        fe = MultiLoggersOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
                        several(c, scratch, fe, menu, names, base, "action_dist", [log["action_dist"], d2][:m], ["a", "b"][:m], kw, per, float(fb["reward"].mean()), k + m)


def slate(c, ilog, th):
    from obp import ope

    L, A, ns = ((2, 3, 4), (3, 4, 6), (2, 2, 3))[ilog]
    log = c09.slate_log(ns, L, A, ilog)
    menu = {k: (lambda kk=k: dict((a, e) for a, _, e in c05.ips_ests(L))[kk]) for k in ("sips", "iips", "rips", "snsips", "sniips", "snrips")}
    menu = {menu[k]().estimator_name: menu[k] for k in menu}
    cdr = lambda: ope.SlateCascadeDoublyRobust(len_list=L, n_unique_action=A)
    menu[cdr().estimator_name] = cdr
    fbk = ("slate_id", "action", "reward", "position", "pscore", "pscore_item_position", "pscore_cascade")
    fb = dict({k: log[k] for k in fbk}, context=np.ones((ns, 1)))
    ev = {k: v for k, v in log.items() if k not in fbk}
    base = {k: log[k] for k in fbk}
    mean_reward = float(log["reward"].sum()) / len(set(log["slate_id"].tolist()))
    with Scratch() as scratch:
        for k, names in enumerate(subsets(menu, th)):
            rel, alpha = k % 3 == 1 and mean_reward != 0, (0.05, 0.3)[k % 2]
            with c.case("slate", log=ilog, names=names, relative=rel, alpha=alpha):
                fe = ope.SlateOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
                fig = draw(c, lambda **f: fe.visualize_off_policy_estimates(**ev, alpha=alpha, is_relative=rel, n_bootstrap_samples=25, random_state=3, **f), scratch, k % 2 == 0, (None, "x y.png", "f.pdf")[k % 3])
                c.same(len(fig.axes), 1, "panels")
                iv = {n: menu[n]().estimate_interval(alpha=alpha, n_bootstrap_samples=25, random_state=3, **base, **ev) for n in names}
                s = mean_reward if rel else 1.0
                vals = {n: float(menu[n]().estimate_policy_value(**base, **ev)) / s for n in names}
                got = {str(g[0]).lower(): g for g in read(fig.axes[0])}
                c.same(sorted(got), sorted(n.lower() for n in names), "labels")
                spans = {}
                for n in names:
                    # the bar is the estimate or the mean reported with its interval
                    _, h, lo, hi = got[n.lower()]
                    c.true(any(abs(h - x) <= 1e-9 + 1e-8 * abs(x) for x in (vals[n], iv[n]["mean"] / s)), "bar of %s: %r, estimate %r, mean of the interval %r" % (n, h, vals[n], iv[n]["mean"] / s))
                    e = sorted(v / s for q, v in iv[n].items() if q != "mean")
                    c.true(lo is not None, "no interval for %s" % n)
                    c.close((lo, hi), e, "interval of %s" % n, rtol=1e-8, atol=1e-10)


def continuous(c, ilog, form, th):
    from obp import ope

    n = (12, 25, 7)[ilog]
    i = np.arange(n)
    fb = dict(action=((i * 7) % 9) / 4.0, reward=((i * 5) % 7) / 2.0, pscore=((i % 4) + 1) / 4.0)
    aux = dict(estimated_rewards_by_reg_model=((i * 3) % 5) / 4.0)
    evs = [((i * 5 + 1) % 8) / 4.0, ((i * 3 + 2) % 9) / 4.0, ((i * 11) % 8) / 4.0]
    K = ope
    menu = {"k-ipw": lambda: K.KernelizedInverseProbabilityWeighting(kernel="gaussian", bandwidth=1.0, estimator_name="k-ipw"),
            "k-ipw2": lambda: K.KernelizedInverseProbabilityWeighting(kernel="epanechnikov", bandwidth=2.5, estimator_name="k-ipw2"),
            "k-snipw": lambda: K.KernelizedSelfNormalizedInverseProbabilityWeighting(kernel="triangular", bandwidth=2.0, estimator_name="k-snipw"),
            "k-dr": lambda: K.KernelizedDoublyRobust(kernel="cosine", bandwidth=2.0, estimator_name="k-dr")}
    base = dict(action_by_behavior_policy=fb["action"], reward=fb["reward"], pscore=fb["pscore"])
    with Scratch() as scratch:
        for k, names in enumerate(subsets(menu, th)):
            kw, per = c09.forms(names, aux, form)
            for x in names:
                if x != "k-dr":
                    per[x] = {}
            with c.case("continuous", log=ilog, names=names, form=form):
                fe = ope.ContinuousOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
                one(c, scratch, fe, menu, names, base, dict(action_by_evaluation_policy=evs[0]), kw, per, float(fb["reward"].mean()), k)
            for m in (1, 2, 3):
                with c.case("continuous-policies", log=ilog, names=names, form=form, policies=m):
                    fe = ope.ContinuousOffPolicyEvaluation(bandit_feedback=fb, ope_estimators=[menu[x]() for x in names])
                    several(c, scratch, fe, menu, names, base, "action_by_evaluation_policy", evs[:m], ["pol %d" % q for q in range(m)], kw, per, float(fb["reward"].mean()), k + m)


def preload():
    import matplotlib

    matplotlib.use("Agg")
    import obp.ope  # noqa: F401


def jobs(tier):
    th = tier == "thorough"
    J = [("discrete", (g, form, p, 6, th)) for g in (0, 1, 3) for form in ("shared-all", "dict", "dict-extra")[:3 if g == 0 else 1] for p in range(6)]
    J += [("multi", (g, form, th)) for g in range(3) for form in ("shared", "dict")] + [("slate", (g, th)) for g in range(3)]
    J += [("continuous", (g, form, th)) for g in range(3) for form in ("shared", "dict")]
    return J
