"""Recording base models.  What they predict names the fit that made the prediction and the row it was
made for, so the origin of every number the library returns can be told from the number itself."""
import hashlib

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from .core import FAULTS


class Ledger:
    """shared by all clones of a model; survives sklearn's clone and deepcopy"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fits = []
        self.preds = []
        self.calls = 0
        self.fault = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def arm(self, fault):
        self.fault, self.calls, self.fits, self.preds = fault, 0, [], []

    def hit(self, what):
        self.calls += 1
        f = self.fault
        if f and self.calls == f["nth"]:
            self.fault = None
            self.ctx.fault(f"model-{what}-{f['kind']}")
            raise FAULTS[f["kind"]](f"base model failed in {what}")

    def note(self, model, X, y, w):
        self.fits.append(dict(X=np.array(X, dtype=float, copy=True), y=np.array(y, copy=True), w=None if w is None else np.array(w, dtype=float, copy=True)))
        return len(self.fits) - 1


def mark(fit, row, k=0):
    """a number in (0.05, 0.95) that stands for (fit, feature row, class)"""
    h = hashlib.sha256(b"%d/%d/" % (fit, k) + np.ascontiguousarray(row, dtype=float).tobytes()).digest()
    return 0.05 + 0.9 * int.from_bytes(h[:6], "little") / 2.0**48


class RecReg(RegressorMixin, BaseEstimator):
    def __init__(self, ledger=None):
        self.ledger = ledger

    def fit(self, X, y, sample_weight=None):
        self.ledger.hit("fit")
        self.fit_id_ = self.ledger.note(self, X, y, sample_weight)
        return self

    def predict(self, X):
        self.ledger.hit("predict")
        if len(X) == 0:
            raise RuntimeError("model was given no rows")
        return np.array([mark(self.fit_id_, x) for x in np.asarray(X, dtype=float)])


class RecClf(ClassifierMixin, BaseEstimator):
    """classes: None = those in the training data (scikit-learn's contract)"""

    def __init__(self, ledger=None, classes=None):
        self.ledger = ledger
        self.classes = classes

    def fit(self, X, y, sample_weight=None):
        self.ledger.hit("fit")
        if len(X) == 0:
            raise RuntimeError("model was given no rows")
        self.fit_id_ = self.ledger.note(self, X, y, sample_weight)
        self.classes_ = np.unique(y) if self.classes is None else np.arange(self.classes)
        return self

    def proba(self, fit, row, classes):
        v = np.array([mark(fit, row, int(k)) for k in classes])
        return v / v.sum()

    def predict_proba(self, X):
        self.ledger.hit("predict")
        if len(X) == 0:
            raise RuntimeError("model was given no rows")
        self.ledger.preds.append((self.fit_id_, np.array(X, dtype=float, copy=True)))
        return np.array([self.proba(self.fit_id_, x, self.classes_) for x in np.asarray(X, dtype=float)])

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(1)]
