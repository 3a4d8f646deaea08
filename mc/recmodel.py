"""Recording base models: every fit is logged, every prediction encodes which fit produced it and from which feature row."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

LOG = []  # one entry per fit: dict(X, y, w)


def reset():
    LOG.clear()


def code(serial, X):
    """injective on the small integer-ish feature rows used by the checks"""
    X = np.asarray(X, dtype=float)
    w = 0.37 ** np.arange(1, X.shape[1] + 1)
    return serial + 1 + np.tanh(X @ w) * 0.45


class _Rec(BaseEstimator):
    def fit(self, X, y, sample_weight=None):
        X, y = np.array(X, dtype=float), np.array(y)
        if X.ndim != 2 or X.shape[0] == 0 or X.shape[0] != y.shape[0]:
            raise RuntimeError("bad training data %s %s" % (X.shape, y.shape))
        if not np.isfinite(X).all():
            raise RuntimeError("training features contain NaN or infinity")
        self.serial_ = len(LOG)
        self.classes_ = np.unique(y)
        LOG.append(dict(X=X, y=y, w=None if sample_weight is None else np.array(sample_weight, dtype=float)))
        return self

    def _check(self, X):
        X = np.asarray(X, dtype=float)
        if X.ndim != 2 or X.shape[0] == 0:
            raise ValueError("Found array with 0 sample(s)")
        if X.shape[1] != LOG[self.serial_]["X"].shape[1]:
            raise ValueError("X has %d features" % X.shape[1])
        return X


class RecReg(RegressorMixin, _Rec):
    def predict(self, X):
        return code(self.serial_, self._check(X))


class RecClf(ClassifierMixin, _Rec):
    """column k of predict_proba is code/1000 * (k+1); unnormalised on purpose: values identify fit, row and class"""

    def predict_proba(self, X):
        v = code(self.serial_, self._check(X)) / 1000.0
        return np.stack([v * (int(k) + 1) for k in self.classes_], axis=1)

    def predict(self, X):
        return self.classes_[np.argmax(self.predict_proba(X), axis=1)]


def rows_of(log_X, rows):
    """indices of `rows` (distinct feature rows) matched one to one, in order, by log_X; None when not a subset"""
    idx = []
    for r in log_X:
        m = np.where((np.abs(rows - r) < 1e-12).all(axis=1))[0]
        if len(m) != 1:
            return None
        idx.append(int(m[0]))
    return idx


def check_folds(c, folds, n, k, what):
    """folds: round -> frozenset of rounds trained on (or None per absent)"""
    groups = {}
    for i in range(n):
        groups.setdefault(folds[i], []).append(i)
    if k == 1:
        c.same(len(groups), 1, what + ": one model")
        c.same(sorted(next(iter(groups))), list(range(n)), what + ": trained on all rounds")
        return
    c.same(len(groups), k, what + ": number of folds")
    for tr, te in groups.items():
        c.same(sorted(tr), [i for i in range(n) if i not in te], what + ": model for rounds %s was trained on %s" % (te, sorted(tr)))
    sizes = sorted(len(v) for v in groups.values())
    c.true(sizes[-1] - sizes[0] <= 1, what + ": unbalanced folds %s" % sizes)
