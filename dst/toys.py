"""Deterministic model and strategies with visible yield points, for experiment-level runs."""
import time
import zlib

import numpy as np

from . import sim as S

HOOK = None           # object with fit(model, X), fitted(...), select(...), selected(...)


def _point():
    sim = S.SIM
    if sim is not None and sim.me() is not None and not sim.suspended:
        sim.seam('user')


class ToyModel(object):
    """A nearest-centroid classifier following the scikit-learn api; fitting is not atomic."""

    def __init__(self, cost=0.0, warm=False, scale=1.0):
        self.cost = cost
        self.warm = warm
        self.scale = scale

    def fit(self, X, y, sample_weight=None):
        h = HOOK
        if h is not None:
            h.fit(self, X)
        X, y = np.asarray(X, dtype=float), np.asarray(y).ravel()
        self.classes_ = None
        self.centroids_ = None
        _point()
        self.classes_ = np.unique(y)
        _point()
        if self.cost:
            time.sleep(self.cost)
        cent = np.zeros((len(self.classes_), X.shape[1]))
        self.centroids_ = cent
        for i, c in enumerate(self.classes_):
            cent[i] = X[y == c].mean(axis=0)
            _point()
        self.n_ = len(y) + (getattr(self, 'n_', 0) if self.warm else 0)
        if h is not None:
            h.fitted(self, X)
        return self

    def predict_proba(self, X):
        X = np.asarray(X, dtype=float)
        _point()
        d = np.stack([np.sum((X - c) ** 2, axis=1) for c in self.centroids_], axis=1)
        p = np.exp(-self.scale * d / (1e-9 + d.sum(axis=1, keepdims=True))) + 1e-6
        _point()
        return p / p.sum(axis=1, keepdims=True)

    def predict(self, X):
        p = self.predict_proba(X)
        bias = (self.n_ % 7) * 1e-4 if self.warm else 0.0
        return self.classes_[np.argmax(p + bias * np.arange(p.shape[1]), axis=1)]

    def get_params(self, deep=True):
        return {'cost': self.cost, 'warm': self.warm, 'scale': self.scale}

    def set_params(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        return self


class ToyStrategy(object):
    """A user-defined strategy: deterministic, stateless."""

    def __init__(self, X, y, **kw):
        self.X = X
        self.y = y

    def select(self, label_index, unlabel_index, batch_size=1, salt=0, **kw):
        h = HOOK
        if h is not None:
            h.select(label_index, unlabel_index, batch_size)
        L = sorted(int(i) for i in label_index)
        U = sorted(int(i) for i in unlabel_index)
        _point()
        U.sort(key=lambda i: (zlib.crc32(repr((salt, L, i)).encode()), i))
        _point()
        r = U[:batch_size]
        if h is not None:
            h.selected(r)
        return r


def blobs(rng, n, k, d=3):
    """A small deterministic classification data set."""
    X = np.zeros((n, d))
    y = np.zeros(n, dtype=int)
    for i in range(n):
        c = i % k
        y[i] = c
        for j in range(d):
            X[i, j] = (c * (j + 1)) % 3 + rng.uniform(-1.2, 1.2)
    return np.round(X, 4), y


def make_split(rng, n, folds, nl, y):
    tr, te, L, U = [], [], [], []
    k = len(set(y.tolist()))
    for _ in range(folds):
        ids = list(range(n))
        rng.shuffle(ids)
        cut = max(k + 2, int(n * 0.7))
        # the training part holds every class among its first labelled items
        first = []
        for c in range(k):
            first.append([i for i in ids if y[i] == c][0])
        rest = [i for i in ids if i not in first]
        train = first + rest[:cut - k]
        test = rest[cut - k:]
        lab = train[:max(k, nl)]
        tr.append(train)
        te.append(test)
        L.append(lab)
        U.append(train[len(lab):])
    return tr, te, L, U
