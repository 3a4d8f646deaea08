"""C20: supervised-to-bandit reduction for all small label patterns, encodings and draws."""
import itertools
import math
from collections import Counter

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin

from mc.rng import WorldRNG, all_paths

ID = "C20"
RULE = ("all label patterns of small datasets x label encodings x evaluation splits x mixing weights x deficient counts x classifier rules, with programmed draws; the log, the evaluation policies and the ground truth are rebuilt independently from the rows")
BOUNDS = {"quick": "6 rows over 2-3 classes (all onto patterns), 7 encodings, split sizes 1-4, 4 mixing weights, all deficient counts, 9 draws, 3 classifier rules; all support orders; bundled digits with real classifiers", "thorough": "7 rows, 4 classes"}
ASSUMPTIONS = ["labels are numeric"]


class Rule(ClassifierMixin, BaseEstimator):
    """a classifier with a known rule; remembers what it was trained on"""

    log = []

    def __init__(self, rule=0, K=2):
        self.rule = rule
        self.K = K

    def fit(self, X, y):
        Rule.log.append((self.rule, np.array(X), np.array(y)))
        self.X_, self.y_, self.classes_ = np.array(X), np.array(y), np.unique(y)
        return self

    def predict(self, X):
        X = np.asarray(X)
        if self.rule == 0:  # by row id
            return X[:, 0].astype(int) % self.K
        if self.rule == 1:  # constant of the training data, as float labels
            return np.full(X.shape[0], self.y_[0], dtype=float)
        return np.array([self.y_[np.argmin(np.abs(self.X_[:, 0] - x[0]))] for x in X])  # nearest training row


def ref_pred(rule, K, Xtr, ytr, X):
    if rule == 0:
        return [int(x[0]) % K for x in X]
    if rule == 1:
        return [int(ytr[0])] * len(X)
    return [int(ytr[int(np.argmin([abs(t[0] - x[0]) for t in Xtr]))]) for x in X]


ENC = {"plain": lambda k: k, "from1": lambda k: k + 1, "signed": lambda k: 2 * k - 1, "sparse": lambda k: 10 * k * k + 3, "float": lambda k: 0.5 + 1.25 * k, "close": lambda k: 5.0 + 1e-3 * k, "big": lambda k: 256 * k - 512}


def data(pattern, enc):
    n = len(pattern)
    X = np.array([[float(i), 10.0 + i * i] for i in range(n)])
    return X, np.array([ENC[enc](k) for k in pattern])


def split_of(c, ds, pattern):
    """rows of the train / evaluation part, identified by their features"""
    tr = [int(x[0]) for x in ds.X_tr]
    ev = [int(x[0]) for x in ds.X_ev]
    c.same(sorted(tr + ev), list(range(len(pattern))), "train and evaluation rows partition the data")
    return tr, ev


def mixture(pred, K, alpha, sup):
    r = [(alpha if a == pred else 0.0) + (1 - alpha) / K if a in sup else 0.0 for a in range(K)]
    s = sum(r)
    return [x / s for x in r]


def cell(dist, u):
    t = 0.0
    for a, p in enumerate(dist):
        t += p
        if u < t:
            return a
    return None


def check_log(c, f, ds, tr, ev, pattern, K, alpha, nd, rule, u=None):
    n = len(ev)
    c.same(f["n_rounds"], n, "n_rounds")
    c.same(f["n_actions"], K, "n_actions")
    c.true(f["position"] is None, "position")
    c.close(f["context"], np.array([[float(i), 10.0 + i * i] for i in ev]), "context")
    c.same(np.shape(f["pi_b"]), (n, K, 1), "pi_b shape")
    pred = ref_pred(rule, K, [[float(i)] for i in tr], [pattern[i] for i in tr], [[float(i)] for i in ev])
    sup = []
    for i in range(n):
        s = [a for a in range(K) if f["pi_b"][i, a, 0] > 0]
        c.same(len(s), K - nd, "supported actions in round %d" % i)
        c.close(f["pi_b"][i, :, 0], mixture(pred[i], K, alpha, s), "behaviour policy in round %d" % i)
        a = int(f["action"][i])
        c.close(f["pscore"][i], f["pi_b"][i, a, 0], "propensity of round %d" % i)
        c.close(f["reward"][i], 1.0 if a == pattern[ev[i]] else 0.0, "reward of round %d (action %d, class %d)" % (i, a, pattern[ev[i]]))
        if u is not None:
            e = cell(f["pi_b"][i, :, 0], u)
            if e is not None:
                c.same(a, e, "action of round %d for draw %g" % (i, u))
        sup.append(tuple(s))
    return pred, sup


def patterns(c, K, n, enc, part):
    from obp.dataset import MultiClassToBanditReduction

    us = (0.0, 0.08, 0.21, 0.34, 0.47, 0.6, 0.73, 0.86, 0.999)
    k = 0
    for pattern in itertools.product(range(K), repeat=n):
        if len(set(pattern)) < K:
            continue
        k += 1
        if k % 4 != part:
            continue
        for j, (ev_size, seed) in enumerate(((1, 0), (3, 1), (0.5, 2), (4, 3))):
            alpha = (0.0, 0.3, 0.8, 0.95, 1e-6, 0.999999)[(k + j) % 6]
            rule = (k + j // 2) % 3
            for nd in range(K):
                with c.case("reduction", pattern=pattern, encoding=enc, eval_size=ev_size, alpha=alpha, rule=rule, deficient=nd):
                    X, y = data(pattern, enc)
                    Rule.log = []
                    ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Rule(rule, K), alpha_b=alpha, n_deficient_actions=nd)
                    c.same(ds.n_actions, K, "n_actions")
                    ds.split_train_eval(eval_size=ev_size, random_state=seed)
                    tr, ev = split_of(c, ds, pattern)
                    want = ev_size if isinstance(ev_size, int) else int(math.ceil(n * ev_size))
                    c.same(len(ev), want, "evaluation rows")
                    for u in us:
                        rng = WorldRNG()
                        rng.program(u=u, gumbels=[((5 * i + 3 * k + j) % 17) * 0.3 for i in range(17)])
                        Rule.log = []
                        f = ds.obtain_batch_bandit_feedback(random_state=rng)
                        c.step()
                        pred, sup = check_log(c, f, ds, tr, ev, pattern, K, alpha, nd, rule, u)
                        c.true(len(Rule.log) == 1 and [int(x[0]) for x in Rule.log[0][1]] == tr and [int(v) for v in Rule.log[0][2]] == [pattern[i] for i in tr], "the base classifier is trained on the training rows and their classes")
                        c.state((pattern, enc, ev_size, alpha, rule, nd, tuple(int(a) for a in f["action"]), tuple(sup)))
                    # evaluation policies: own classifier or the behaviour one
                    for rule_e, alpha_e in itertools.product((None, 0, 1, 2), (0.0, 0.4, 1.0)):
                        Rule.log = []
                        mine = None if rule_e is None else Rule(rule_e, K)
                        d = ds.obtain_action_dist_by_eval_policy(base_classifier_e=mine, alpha_e=alpha_e)
                        c.step()
                        c.true(mine is None or not hasattr(mine, "y_"), "the user's evaluation classifier is left as it was")
                        c.true(not hasattr(ds.base_classifier_b, "y_"), "the user's behaviour classifier is left as it was")
                        re_ = rule if rule_e is None else rule_e
                        pe = ref_pred(re_, K, [[float(i)] for i in tr], [pattern[i] for i in tr], [[float(i)] for i in ev])
                        exp = np.array([mixture(p, K, alpha_e, range(K)) for p in pe])
                        c.close(d, exp[:, :, None], "evaluation policy")
                        c.true(len(Rule.log) == 1 and [int(x[0]) for x in Rule.log[0][1]] == tr, "the evaluation classifier is trained on the training rows")
                        c.close(ds.calc_ground_truth_policy_value(action_dist=d), sum(exp[i, pattern[e]] for i, e in enumerate(ev)) / len(ev), "ground truth value")


def long(c, n, K):
    """sizes beyond any block or chunk limit, many classes"""
    from obp.dataset import MultiClassToBanditReduction

    pattern = tuple(((i * i + i // 7) if K < 200 else (7 * i + i // K)) % K for i in range(n))
    for enc, rule, nd, alpha, ev_size in (("plain", 0, 0, 0.8, 0.5), ("sparse", 2, K // 2, 0.001, 0.3), ("float", 2, K - 1, 0.9999, n - 1500)):
        with c.case("long", n=n, K=K, encoding=enc, rule=rule, deficient=nd, alpha=alpha, eval_size=ev_size):
            X, y = data(pattern, enc)
            Rule.log = []
            ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Rule(rule, K), alpha_b=alpha, n_deficient_actions=nd)
            ds.split_train_eval(eval_size=ev_size, random_state=3)
            tr, ev = split_of(c, ds, pattern)
            f = ds.obtain_batch_bandit_feedback(random_state=5)
            c.step()
            check_log(c, f, ds, tr, ev, pattern, K, alpha, nd, rule)
            c.true([int(x[0]) for x in Rule.log[-1][1]] == tr and [int(v) for v in Rule.log[-1][2]] == [pattern[i] for i in tr], "the base classifier is trained on all training rows and their classes")
            d = ds.obtain_action_dist_by_eval_policy(base_classifier_e=Rule(2, K), alpha_e=0.37)
            c.true([int(x[0]) for x in Rule.log[-1][1]] == tr and [int(v) for v in Rule.log[-1][2]] == [pattern[i] for i in tr], "the evaluation classifier is trained on all training rows and their classes")
            pe = ref_pred(2, K, [[float(i)] for i in tr], [pattern[i] for i in tr], [[float(i)] for i in ev])
            exp = np.array([mixture(p, K, 0.37, range(K)) for p in pe])
            c.close(d, exp[:, :, None], "evaluation policy")
            c.close(ds.calc_ground_truth_policy_value(action_dist=d), math.fsum(exp[i, pattern[e]] for i, e in enumerate(ev)) / len(ev), "ground truth value")
            c.state((n, K, enc))


def truth(c):
    from obp.dataset import MultiClassToBanditReduction

    X, y = data((0, 1, 2, 0, 1, 2, 2), "from1")
    pat = (0, 1, 2, 0, 1, 2, 2)
    levels = [(1, 0, 0), (0, 1, 0), (0.5, 0.25, 0.25), (0.0, 0.1, 0.9)]
    for n in (1, 2, 3):
        ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Rule(0, 3))
        ds.split_train_eval(eval_size=n, random_state=n)
        ev = [int(x[0]) for x in ds.X_ev]
        for rows in itertools.product(levels, repeat=n):
            with c.case("truth", rows=rows, evaluation_rows=ev):
                ad = np.array(rows, dtype=float)[:, :, None]
                c.close(ds.calc_ground_truth_policy_value(action_dist=ad), sum(rows[i][pat[e]] for i, e in enumerate(ev)) / n, "ground truth value")
                c.step()
        for bad in (np.full((n + 1, 3, 1), 1 / 3), np.full((n, 3), 1 / 3), "x", None):
            with c.case("truth-malformed", n=n, bad=repr(np.shape(bad))):
                c.rejects(lambda: ds.calc_ground_truth_policy_value(action_dist=bad), "action_dist %r" % (np.shape(bad),))


def supports(c, K, nd):
    from obp.dataset import MultiClassToBanditReduction

    with c.case("supports", K=K, deficient=nd):
        pattern = tuple(i % K for i in range(K + 2))
        X, y = data(pattern, "sparse")
        ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Rule(0, K), alpha_b=0.5, n_deficient_actions=nd)
        ds.split_train_eval(eval_size=1, random_state=0)
        cnt = Counter()
        for perm in itertools.permutations(range(K)):
            rng = WorldRNG()
            rng.program(u=0.3, gumbels=[float(p) for p in perm])

            def run():
                rng._gi = 0
                f = ds.obtain_batch_bandit_feedback(random_state=rng)
                return tuple(int(a) for a in np.nonzero(f["pi_b"][0, :, 0])[0])

            for pr, s in all_paths(rng, run):
                cnt[s] += pr
            c.step()
        tot = sum(cnt.values())
        sets = list(itertools.combinations(range(K), K - nd))
        for s in sets:
            c.close(float(cnt[s] / tot), 1 / len(sets), "probability that the supported actions are %s" % (s,))


def seeds(c):
    from obp.dataset import MultiClassToBanditReduction

    pattern = (0, 1, 2, 0, 1, 2)
    X, y = data(pattern, "from1")
    with c.case("support-and-action-draws"):
        ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Rule(0, 3), alpha_b=0.0, n_deficient_actions=1)
        ds.split_train_eval(eval_size=1, random_state=0)
        N, tab = 900, Counter()
        for s in range(N):
            f = ds.obtain_batch_bandit_feedback(random_state=s)
            sup = [a for a in range(3) if f["pi_b"][0, a, 0] > 0]
            tab[(tuple(sup), sup.index(int(f["action"][0])))] += 1
            c.step()
        for sup in itertools.combinations(range(3), 2):
            a, b = tab[(sup, 0)], tab[(sup, 1)]
            c.true(abs(a - b) < 6 * math.sqrt(a + b), "given support %s the two equally likely actions were logged %d and %d times over seeds" % (sup, a, b))
    for seed in (0, 1, 12345):
        with c.case("seed", seed=seed):
            ds = MultiClassToBanditReduction(X=X, y=y, base_classifier_b=Rule(0, 3), alpha_b=0.3, n_deficient_actions=1)
            ds.split_train_eval(eval_size=4, random_state=seed)
            a, b = (ds.obtain_batch_bandit_feedback(random_state=seed) for _ in range(2))
            for k in a:
                if isinstance(a[k], np.ndarray):
                    c.same(a[k], b[k], "%s for equal seeds" % k)
            ev = [int(x[0]) for x in ds.X_ev]
            ds.split_train_eval(eval_size=4, random_state=seed)
            c.same([int(x[0]) for x in ds.X_ev], ev, "split for equal seeds")


def real(c):
    """bundled data and real classifiers"""
    from sklearn.datasets import load_digits
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.tree import DecisionTreeClassifier
    from obp.dataset import MultiClassToBanditReduction

    X, y = load_digits(return_X_y=True)
    X, y = X[:400], y[:400]
    for shift, nd, clf in itertools.product((0, 5), (0, 3), (GaussianNB(), DecisionTreeClassifier(random_state=0, max_depth=6), LogisticRegression(max_iter=200, random_state=0))):
        with c.case("digits", shift=shift, deficient=nd, classifier=type(clf).__name__):
            from sklearn.base import clone

            ds = MultiClassToBanditReduction(X=X, y=y + shift, base_classifier_b=clf, alpha_b=0.7, n_deficient_actions=nd)
            ds.split_train_eval(eval_size=0.4, random_state=1)
            f = ds.obtain_batch_bandit_feedback(random_state=2)
            c.step()
            idx = {X[i].tobytes(): i for i in range(len(X))}
            ev = [idx[np.ascontiguousarray(x).tobytes()] for x in np.asarray(f["context"])]
            tr = [i for i in (idx[np.ascontiguousarray(x).tobytes()] for x in np.asarray(ds.X_tr))]
            c.true(not set(tr) & set(ev), "training and evaluation rows overlap")
            c.same(len(ev), 160, "evaluation rows")
            pred = clone(clf).fit(X[tr], y[tr]).predict(X[ev])
            for i in range(len(ev)):
                s = [a for a in range(10) if f["pi_b"][i, a, 0] > 0]
                c.same(len(s), 10 - nd, "supported actions")
                c.close(f["pi_b"][i, :, 0], mixture(int(pred[i]), 10, 0.7, s), "behaviour policy of row %d" % i)
                c.close(f["reward"][i], float(f["action"][i] == y[ev[i]]), "reward of row %d" % i)
                c.close(f["pscore"][i], f["pi_b"][i, f["action"][i], 0], "propensity of row %d" % i)
            d = ds.obtain_action_dist_by_eval_policy(alpha_e=0.5)
            c.close(d[:, :, 0], np.array([mixture(int(p), 10, 0.5, range(10)) for p in pred]), "evaluation policy")
            c.close(ds.calc_ground_truth_policy_value(d), np.mean([mixture(int(p), 10, 0.5, range(10))[y[e]] for p, e in zip(pred, ev)]), "ground truth")


def malformed(c):
    from obp.dataset import MultiClassToBanditReduction as M
    from sklearn.linear_model import LinearRegression

    X, y = data((0, 1, 2, 0, 1), "plain")
    base = dict(X=X, y=y, base_classifier_b=Rule(0, 3))
    with c.case("wellformed"):
        M(**base)
    for k, v in [("base_classifier_b", LinearRegression()), ("base_classifier_b", None), ("alpha_b", 1.0), ("alpha_b", 1.5), ("alpha_b", -0.1), ("alpha_b", "a"), ("alpha_b", None), ("n_deficient_actions", -1), ("n_deficient_actions", 3),
                 ("n_deficient_actions", 1.0), ("X", X[:3]), ("X", X[:, 0]), ("y", y[:3])]:
        with c.case("malformed", arg=k, value=repr(v)[:60]):
            c.rejects(lambda: M(**dict(base, **{k: v})), "%s=%r" % (k, v))
    ds = M(**base)
    ds.split_train_eval(eval_size=2, random_state=0)
    for a in (-0.1, 1.1, "a", None):
        with c.case("malformed-alpha_e", value=a):
            c.rejects(lambda: ds.obtain_action_dist_by_eval_policy(alpha_e=a), "alpha_e=%r" % (a,))


def jobs(tier):
    deep = tier == "thorough"
    J = []
    for enc in ENC:
        J += [("patterns", (2, 6, enc, p)) for p in range(4)] + [("patterns", (3, 6 if deep else 5, enc, p)) for p in range(4)]
        if deep:
            J += [("patterns", (4, 6, enc, p)) for p in range(4)]
    J += [("long", (2600, 12)), ("long", (1900, 40)), ("long", (2000, 330)), ("truth", ()), ("seeds", ()), ("real", ()), ("malformed", ())] + [("supports", (K, nd)) for K in (2, 3, 4) for nd in range(1, K)]
    return J
