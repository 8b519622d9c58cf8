"""C15: query-strategy objects can be shared by concurrent folds."""
import copy
import pickle
import random
import threading

import joblib
import numpy as np
from sklearn.linear_model import LogisticRegression

from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.index.index_collections import FeatureIndexCollection
from alipy.oracle import Oracle, Oracles, OracleQueryMultiLabel
from alipy import query_strategy as Q
from alipy.query_strategy.multi_label import LabelRankingModel

from .. import sim as S
from .. import toys as T
from .. import work as W
from ..runner import Check

# name -> (group, container kinds, random?, one object per fold?)
CATALOGUE = {
    'Uncertainty': ('inst', ('list', 'ndarray', 'coll'), False, False),
    'UncertaintyDefault': ('inst', ('list', 'ndarray', 'coll'), False, False),
    'UncertaintyMat': ('inst', ('list', 'ndarray', 'coll'), False, False),
    'Boundary': ('bin', ('list', 'ndarray', 'coll'), False, False),
    'Random': ('inst', ('coll',), True, False),
    'QBC': ('inst', ('list', 'ndarray', 'coll'), True, False),
    'QBCMat': ('inst', ('list', 'ndarray', 'coll'), False, False),
    'EER': ('inst', ('list', 'ndarray', 'coll'), False, False),
    'QUIRE': ('train', ('list', 'ndarray', 'coll'), False, False),
    'Coreset': ('train', ('list', 'ndarray', 'coll'), False, False),
    'DensityWeighted': ('inst', ('list', 'ndarray', 'coll'), False, False),
    'LAL': ('bin', ('list', 'ndarray', 'coll'), True, False),
    'GraphDensity': ('train', ('list', 'ndarray', 'coll'), False, True),
    'mlQUIRE': ('ml', ('mcoll', 'pairs'), False, False),
    'mlAUDI': ('ml', ('mcoll', 'pairs'), True, False),
    'mlAUDImodel': ('ml', ('mcoll', 'pairs'), False, False),
    'mlMMC': ('mlrow', ('list', 'ndarray', 'coll', 'mcoll'), True, False),
    'mlAdaptive': ('mlrow', ('list', 'ndarray', 'coll', 'mcoll'), True, False),
    'mlRandom': ('ml', ('mcoll', 'pairs'), True, False),
    'AURO': ('ml', ('mcoll', 'pairs'), True, False),
    'AUROmodel': ('ml', ('mcoll', 'pairs'), False, False),
    'fStability': ('feat', ('mcoll', 'fcoll'), False, False),
    'fStabilityAny': ('feat', ('mcoll', 'fcoll'), False, False),
    'fRandom': ('feat', ('mcoll', 'fcoll'), True, False),
    'fAFASMC': ('feat', ('mcoll', 'fcoll'), False, True),
    'CEAL': ('noisy', ('list', 'ndarray'), False, False),
    'nAll': ('noisy', ('list', 'ndarray'), False, False),
    'nRandom': ('noisy', ('list', 'ndarray'), True, False),
    'IEthresh': ('noisy', ('list', 'ndarray'), False, True),
    'HALC': ('ml', ('mcoll', 'pairs'), False, False),
    'csPerformance': ('ml', ('mcoll', 'pairs'), False, False),
    'csRandom': ('ml', ('mcoll', 'pairs'), True, False),
}
# those whose single call is worth many preemptions come up more often
NAMES = sorted(CATALOGUE) + ['Coreset', 'LAL', 'mlMMC', 'mlAdaptive', 'mlAUDImodel', 'AUROmodel', 'fStabilityAny',
                             'UncertaintyMat', 'Uncertainty', 'EER', 'QBC', 'csPerformance', 'CEAL']

# a call of these is over soon, so they are asked several times for each selection
CHEAP = {'nAll', 'nRandom', 'QUIRE', 'QBCMat', 'Random', 'DensityWeighted', 'UncertaintyDefault', 'UncertaintyMat', 'Uncertainty',
         'mlQUIRE', 'Coreset', 'fRandom', 'mlRandom', 'Boundary', 'AUROmodel', 'csPerformance', 'csRandom', 'mlAUDImodel', 'HALC',
         'EER'}


class Streams(object):
    """numpy's global random stream, one per fold (the generators are swapped on a switch)."""

    def __init__(self):
        self.of = {}

    def new(self, seed):
        return np.random.RandomState(seed & 0xffffffff)

    def use(self, gen):
        """Make a generator the global one, return the previous one."""
        old = getattr(self, 'now', None)
        self.now = gen
        np.random.mtrand._rand = gen
        return old

    def on_switch(self, a, b):
        self.of[a.id] = self.now
        self.use(self.of.setdefault(b.id, self.now))


STREAMS = Streams()


def _dispatch():
    """Let the functions of np.random use the current generator."""
    for n in dir(np.random.mtrand._rand):
        if n.startswith('_') or not hasattr(np.random, n):
            continue

        def f(*a, _n=n, **kw):
            return getattr(np.random.mtrand._rand, _n)(*a, **kw)
        f.__name__ = n
        setattr(np.random, n, f)
    STREAMS.use(STREAMS.new(0))


_dispatch()


def containers(kind, L, U, width):
    def mk(xs):
        if kind == 'ndarray':
            return np.array(xs)
        if kind == 'coll':
            return IndexCollection(list(xs))
        if kind == 'mcoll':
            return MultiLabelIndexCollection(list(xs), width)
        if kind == 'fcoll':
            return FeatureIndexCollection(list(xs), width)
        return list(xs)
    return mk(L), mk(U)


def snapshot(v):
    """Exact content (with order) of an argument."""
    if isinstance(v, (IndexCollection, MultiLabelIndexCollection)):
        return type(v).__name__, tuple(W.canon(x) for x in v.index)
    if isinstance(v, np.ndarray):
        return 'nd', v.dtype.str, v.shape, v.tobytes()
    if isinstance(v, (list, tuple)):
        return type(v).__name__, tuple(snapshot(x) for x in v)
    if isinstance(v, dict):
        return 'dict', tuple(sorted((k, snapshot(x)) for k, x in v.items()))
    if isinstance(v, (LogisticRegression, T.ToyModel, LabelRankingModel)):
        return type(v).__name__, snapshot(v.__dict__)
    if v is None or isinstance(v, (int, float, str, bool, np.generic)):
        return W.canon(v)
    return type(v).__name__


def norm(r):
    """Result of a selection, comparable."""
    if isinstance(r, (IndexCollection, MultiLabelIndexCollection)):
        return tuple(W.canon(x) for x in r.index)
    if isinstance(r, (list, tuple)) or (isinstance(r, np.ndarray) and r.ndim):
        return tuple(norm(x) for x in r)
    if type(r).__name__ == 'dict_values':
        return tuple(norm(x) for x in r)
    return W.canon(r)


class World(object):
    """Data of one run and what is needed to call a strategy of the catalogue."""

    def __init__(self, plan, rng, ctx):
        self.plan = plan
        self.name = plan['strategy']
        self.group, self.kinds, self.random, self.own = CATALOGUE[self.name]
        self.ctx = ctx
        n = plan['n']
        if self.group in ('inst', 'train', 'bin', 'noisy'):
            self.k = 2 if self.group in ('bin', 'noisy') else plan['k']
            self.X, self.y = T.blobs(rng, n, self.k, 4)
            self.width = None
        else:
            d = self.d = plan['d']
            self.X = np.round(np.array([[rng.uniform(-2, 2) for _ in range(d)] for _ in range(n)]), 4)
            if self.group == 'feat':
                self.X = np.round(self.X + np.outer([rng.uniform(-1, 1) for _ in range(n)],
                                                    [rng.uniform(-2, 2) for _ in range(d)]), 4)
                self.y = np.array([i % 2 for i in range(n)])
                self.width = d
            else:
                m = self.m = plan['m']
                lo = 0 if self.group == 'mlrow' else -1
                Y = np.full((n, m), lo)
                for i in range(n):
                    for j in range(m):
                        w = sum(self.X[i, :]) * (1 if j % 2 else -1) + rng.uniform(-1, 1)
                        if w > 0 or (i + j) % 5 == 0:
                            Y[i, j] = 1
                # the first rows contain both values of each label and different cardinalities
                Y[0, :] = 1
                Y[1, :] = lo
                Y[2, :] = lo
                Y[2, 0] = 1
                self.y = Y
                self.width = m
        self.oracles = None
        if self.group == 'noisy':
            labs = []
            for o in range(plan['oracles']):
                lab = self.y.copy()
                for i in range(n):
                    if rng.random() < 0.25:
                        lab[i] = 1 - lab[i]
                labs.append(lab)
            if plan['pool']:
                self.oracles = Oracles()
                for o, lab in enumerate(labs):
                    self.oracles.add_oracle('o%d' % o, Oracle(lab, cost=np.full(n, o + 1)))
            else:
                self.oracles = [Oracle(lab, cost=np.full(n, o + 1)) for o, lab in enumerate(labs)]
        self.folds = [self.fold(rng, f) for f in range(plan['folds'])]
        if self.name == 'LAL':
            r = np.random.RandomState(plan['salt'])
            feats = r.rand(40, 8)
            labels = r.rand(40)
            import os
            os.makedirs(ctx.root, exist_ok=True)
            with S.real_open(os.path.join(ctx.root, 'LAL-iterativetree-simulatedunbalanced-big.npz'), 'wb') as fh:
                np.savez(fh, arr_0=feats, arr_1=labels)

    # ------------------------------------------------------------------ folds
    def fold(self, rng, f):
        n = self.plan['n']
        ids = list(range(n))
        rng.shuffle(ids)
        if self.group in ('inst', 'train', 'bin', 'noisy'):
            if self.group == 'train':
                train = list(range(n)) if self.plan['whole'] else sorted(range(0, n - 3))
                rng.shuffle(train)
            else:
                train = ids[:max(n - 4, 2 * self.k + 4)]
            first = []
            for c in range(self.k):
                cs = [i for i in train if self.y[i] == c]
                first += cs[:self.plan['per']]
            if self.name == 'LAL':
                first = [i for i in train if i not in first][:4] + first
            U = [i for i in train if i not in first]
            return {'L': first, 'U': U}
        if self.group == 'mlrow':
            rest = [i for i in ids if i > 2][:n - 5]
            L = [0, 1, 2] + rest[:self.plan['nl']]
            U = rest[self.plan['nl']:]
            rng.shuffle(L)
            if self.plan['kind'] == 'mcoll':
                return {'L': [(i, j) for i in L for j in range(self.m)], 'U': [(i, j) for i in U for j in range(self.m)]}
            return {'L': L, 'U': U}
        if self.group == 'ml':
            rest = [i for i in ids if i > 2][:n - 5]
            rows = [0, 1, 2] + rest[:self.plan['nl']]
            L = [(i, j) for i in rows for j in range(self.m)]
            U = [(i, j) for i in rest[self.plan['nl']:] for j in range(self.m)]
            extra = [p for p in U if rng.random() < 0.15]
            if self.name not in ('HALC',):
                L = L + extra
                U = [p for p in U if p not in extra]
            rng.shuffle(L)
            rng.shuffle(U)
            return {'L': L, 'U': U}
        rows = ids if self.name != 'fStabilityAny' else ids[:n - 2]
        allp = [(i, j) for i in rows for j in range(self.d)]
        U = [p for p in allp if rng.random() < 0.3]
        # every instance has an observed and an unknown feature
        for i in rows:
            mine = [p for p in U if p[0] == i]
            if len(mine) == self.d:
                U.remove(mine[0])
            if not mine:
                U.append((i, rng.randrange(self.d)))
        L = [p for p in allp if p not in U]
        rng.shuffle(U)
        return {'L': L, 'U': U}

    # ------------------------------------------------------------------ objects
    def make(self, f):
        p, X, y = self.plan, self.X, self.y
        nm = self.name
        if nm in ('Uncertainty', 'UncertaintyDefault', 'UncertaintyMat'):
            return Q.QueryInstanceUncertainty(X, y, measure=p['measure'])
        if nm == 'Boundary':
            return Q.QueryInstanceUncertainty(X, y, measure='distance_to_boundary')
        if nm == 'Random':
            return Q.QueryInstanceRandom(X, y)
        if nm in ('QBC', 'QBCMat'):
            return Q.QueryInstanceQBC(X, y, disagreement=p['disagreement'] if nm == 'QBC' else 'KL_divergence')
        if nm == 'EER':
            return Q.QueryExpectedErrorReduction(X, y)
        if self.group == 'train':
            tr = sorted(self.folds[f]['L'] + self.folds[f]['U'])
            tr = np.array(tr)
            if nm == 'QUIRE':
                return Q.QueryInstanceQUIRE(X, y, tr, kernel=p['kernel'])
            if nm == 'Coreset':
                return Q.QueryInstanceCoresetGreedy(X, y, tr, distance=p['distance'])
            return Q.QueryInstanceGraphDensity(X, y, tr, metric='manhattan')
        if nm == 'DensityWeighted':
            return Q.QueryInstanceDensityWeighted(X, y, uncertainty_meansure=p['measure'], distance=p['distance'])
        if nm == 'LAL':
            o = Q.QueryInstanceLAL(X, y, data_path=self.ctx.root, cls_est=5, train_slt=False)
            o.train_selector_from_file(reg_est=4, reg_depth=4, feat=4)
            return o
        if nm == 'mlQUIRE':
            return Q.QueryMultiLabelQUIRE(X, y)
        if nm.startswith('mlAUDI'):
            return Q.QueryMultiLabelAUDI(X, y)
        if nm == 'mlMMC':
            return Q.QueryMultiLabelMMC(X, y, base_clf=LogisticRegression(solver='liblinear'),
                                         random_state=p['salt'])
        if nm == 'mlAdaptive':
            return Q.QueryMultiLabelAdaptive(X, y, betas=[0., 0.5, 1.], random_state=p['salt'])
        if nm == 'mlRandom':
            return Q.QueryMultiLabelRandom(X, y)
        if nm.startswith('AURO'):
            return Q.QueryTypeAURO(X, y)
        if nm == 'fStability':
            return Q.QueryFeatureStability(X, y, np.arange(p['n']), rank_arr=[1, 2])
        if nm == 'fStabilityAny':
            return Q.QueryFeatureStability(X, y, rank_arr=[1, 2])
        if nm == 'fRandom':
            return Q.QueryFeatureRandom(X, y)
        if nm == 'fAFASMC':
            return Q.QueryFeatureAFASMC(X, y, np.arange(p['n']))
        if nm == 'CEAL':
            return Q.QueryNoisyOraclesCEAL(X, y, self.oracles, np.array(self.folds[0]['L']))
        if nm == 'nAll':
            return Q.QueryNoisyOraclesAll(self.oracles, X, y)
        if nm == 'nRandom':
            return Q.QueryNoisyOraclesRandom(X, y, self.oracles)
        if nm == 'IEthresh':
            return Q.QueryNoisyOraclesIEthresh(X, y, self.oracles, np.array(self.folds[0]['L']))
        if nm == 'HALC':
            tree = np.zeros((self.m, self.m), dtype=int)
            for j in range(1, self.m):
                tree[0, j] = 1
            return Q.QueryCostSensitiveHALC(X, y, tree)
        if nm == 'csPerformance':
            return Q.QueryCostSensitivePerformance(X, y)
        if nm == 'csRandom':
            return Q.QueryCostSensitiveRandom(X, y)
        raise S.HarnessError(nm)

    def model(self, L):
        """The fold's own fitted model."""
        if self.name.endswith('model') or self.name in ('mlAUDI', 'AURO'):
            if not self.name.endswith('model'):
                return None
            rows = sorted(set(i for i, _ in L))
            rows = [r for r in rows if sum(1 for a, _ in L if a == r) == self.m]
            old = STREAMS.use(STREAMS.new(self.plan['salt']))
            try:
                return LabelRankingModel(self.X[rows], self.y[rows], n_repeat=1)
            finally:
                STREAMS.use(old)
        if self.group not in ('inst', 'bin', 'noisy') or self.name in ('UncertaintyDefault', 'Random', 'LAL'):
            return None
        if self.name == 'QBC':
            m = LogisticRegression(solver='liblinear', random_state=3)
        elif self.name == 'Boundary' or self.plan['sk']:
            m = LogisticRegression(solver='liblinear', random_state=3)
        else:
            m = T.ToyModel()
        m.fit(self.X[L], self.y[L])
        return m

    # ------------------------------------------------------------------ calls
    def args(self, f, L, U, step):
        """Keyword arguments of the step-th selection (fresh objects)."""
        p = self.plan
        raw_L, raw_U = list(L), list(U)
        cl, cu = containers(p['kind'], raw_L, raw_U, self.width)
        a = {'label_index': cl, 'unlabel_index': cu, 'batch_size': p['batch']}
        nm = self.name
        model = self.model(raw_L)
        if nm in ('Uncertainty', 'Boundary', 'DensityWeighted', 'EER') or (nm == 'QBC' and p['sk']):
            a['model'] = model
            if nm == 'QBC' and p['salt'] % 2 == 0:
                a['n_jobs'] = 1
        elif nm in ('mlAUDImodel', 'AUROmodel'):
            a['model'] = model
        elif nm == 'UncertaintyMat':
            r = random.Random(p['salt'] * 31 + f * 7 + step)
            pm = np.array([[r.choice([0.0, r.random(), r.random()]) for _ in range(self.k)] for _ in raw_U])
            del a['label_index']
            a['predict'] = pm
        elif nm == 'QBCMat':
            r = random.Random(p['salt'] * 31 + f * 7 + step)
            del a['label_index']
            a['predict'] = [np.array([[0.01 + r.random() for _ in range(self.k)] for _ in raw_U]) for _ in range(3)]
        elif self.group == 'feat':
            a = {'observed_entries': cl, 'unkonwn_entries': cu}
            if nm == 'fRandom':
                a['batch_size'] = p['batch']
            if nm == 'fAFASMC':
                a.update(max_in_iter=6, max_out_iter=2)
        elif self.group == 'noisy':
            del a['batch_size']
            a['model'] = model
        elif nm in ('HALC', 'csPerformance', 'csRandom'):
            del a['batch_size']
            a['budget'] = min(p['budget'], max(1, len(raw_U) - 1)) if nm == 'csRandom' else p['budget']
            a['cost'] = None if p['nocost'] else [1 + (j + p['salt']) % 2 for j in range(self.m)]
            if a['cost'] is not None and nm == 'csRandom':
                a['budget'] = min(a['budget'], max(1, len(raw_U) - 1))
        elif nm == 'mlRandom':
            a['select_type'] = p['select_type']
        return a

    def call(self, obj, a):
        with joblib.parallel_backend('sequential'):
            if 'predict' in a:
                return obj.select_by_prediction_mat(**a)
            return obj.select(**a)

    # ------------------------------------------------------------------ oracle
    def items(self, r):
        """The selected items of a result as a list."""
        if self.group == 'noisy':
            r = r[0]
        if self.name.startswith('AURO'):
            if isinstance(r, tuple) and len(r) == 3 and not isinstance(r[0], (tuple, list)):
                return [(int(r[0]), int(r[1])), (int(r[0]), int(r[2]))]
        return [tuple(int(v) for v in x) if isinstance(x, (tuple, list, np.ndarray)) else int(x) for x in list(r)]

    def judge(self, r, U):
        """Why a result is no valid choice, or None."""
        xs = self.items(r)
        if self.name == 'HALC':
            return None
        if len(set(xs)) != len(xs):
            return 'duplicates: %s' % (xs,)
        U = set(U)
        rows = set(u[0] for u in U if isinstance(u, tuple))
        for x in xs:
            if isinstance(x, tuple) and len(x) == 1:
                if x[0] not in rows and x[0] not in U:
                    return '%s is not among the unlabeled instances of the fold' % (x,)
            elif x not in U and not (self.group == 'mlrow' and x in rows):
                return '%s is not among the unlabeled items of the fold' % (x,)
        if self.name == 'mlRandom' and self.plan['select_type'] == 'ins':
            return None
        if self.name in ('Random', 'QBC', 'LAL', 'fRandom', 'mlRandom'):
            want = min(self.plan['batch'], len(U))
            if len(xs) != want:
                return '%d items instead of %d' % (len(xs), want)
        return None

    def after(self, f, L, U, xs):
        """The user's bookkeeping after a selection."""
        for x in xs:
            if isinstance(x, tuple) and len(x) == 1:
                x = x[0]
            if self.group == 'mlrow' and self.plan['kind'] == 'mcoll' and not isinstance(x, tuple):
                got = [u for u in U if u[0] == x]
            elif isinstance(x, int) and U and isinstance(U[0], tuple):
                got = [u for u in U if u[0] == x]
            else:
                got = [x] if x in U else []
            for g in got:
                U.remove(g)
                L.append(g)


class C15(Check):
    id = 'C15'
    title = 'strategy objects shared by concurrent folds'
    rule = ('A run = one query strategy of the catalogue (32 variants: instance, multi-label, feature, noisy-oracle, type and '
            'cost-sensitive strategies), 2-4 folds in threads of their own which share one strategy object and make 1-3 '
            'selections each with their own containers, models and update loop, preempted at seeded lines inside the strategy; '
            'each selection is compared with the same call on a fresh object alone, with the same stream of random numbers. '
            'Non-trivial: a fold was preempted inside a selection while another one was selecting.')
    components = {'real': ['alipy.query_strategy.*', 'alipy.index collections', 'alipy.oracle', 'scikit-learn models', 'numpy'],
                  'stub': ['scheduler', 'the folds\' user code', 'LAL training data (40 random rows)',
                           'toy model (half of the runs)', 'numpy global random stream (one per fold)']}
    assumptions = ['numpy and scikit-learn calls are atomic between lines of ALiPy',
                   'GraphDensity, AFASMC and IEthresh learn from their own earlier selections: one object per fold',
                   'BMDR and SPAL cannot run here (cvxpy is not installed)']
    quick_s = 40

    def gen_plan(self, rng, tier, names=None):
        name = rng.choice(names or NAMES)
        group, kinds, rnd, own = CATALOGUE[name]
        n = {'inst': (12, 22), 'train': (14, 20), 'bin': (12, 22), 'ml': (9, 14), 'mlrow': (10, 16), 'feat': (8, 11),
             'noisy': (14, 20)}[group]
        n = rng.randrange(*n)
        if name == 'EER':
            n = rng.randrange(9, 12)
        if name == 'GraphDensity':
            n = rng.randrange(17, 22)
        reps = rng.choice([1, 2, 4, 8]) if name in CHEAP else 1
        return {'strategy': name, 'reps': reps, 'kind': rng.choice(kinds), 'n': n, 'k': rng.choice([2, 3]) if name != 'EER' else 2,
                'd': rng.choice([4, 5, 6]),
                'm': rng.choice([3, 4]), 'folds': rng.choice([2, 2, 3, 3, 4]), 'steps': rng.choice([1, 1, 2, 3]),
                'batch': rng.choice([1, 1, 2, 3]), 'per': rng.choice([2, 3]), 'nl': rng.choice([1, 2, 3]),
                'measure': rng.choice(['entropy', 'least_confident', 'margin']),
                'disagreement': rng.choice(['vote_entropy', 'KL_divergence']), 'kernel': rng.choice(['rbf', 'poly', 'linear']),
                'distance': rng.choice(['euclidean', 'cityblock', 'l1', 'manhattan']), 'sk': rng.random() < 0.5,
                'whole': rng.random() < 0.5, 'oracles': rng.choice([2, 3, 4]), 'pool': rng.random() < 0.5,
                'select_type': rng.choice(['ins', 'ins-lab']), 'budget': rng.choice([4, 5, 7]), 'nocost': rng.random() < 0.3,
                'salt': rng.randrange(1000), 'seed': rng.randrange(10 ** 6),
                'params': W.gen_params(rng, line_gap=rng.choice([2, 4, 8, 20, 60]))}

    def shrink(self, p):
        for key, val in (('folds', 2), ('steps', 1), ('batch', 1)):
            if p[key] != val:
                q = copy.deepcopy(p)
                q[key] = val
                yield q

    def execute(self, plan, ctx):
        rng = random.Random(plan['seed'])
        STREAMS.use(STREAMS.new(plan['seed']))
        w = World(plan, rng, ctx)

        def fresh(f):
            # not a deep copy: some strategies hold views of dictionaries
            old = STREAMS.use(STREAMS.new(plan['salt']))
            try:
                with joblib.parallel_backend('sequential'):
                    return w.make(f)
            finally:
                STREAMS.use(old)

        objs = [fresh(f) for f in range(plan['folds'] if w.own else 1)]
        refs = [fresh(f) for f in range(plan['folds'])] if w.own else None
        X0, y0 = snapshot(w.X), snapshot(w.y)
        busy = set()
        stat = {'overlap': 0, 'calls': 0, 'equal': 0}

        def solo(ref, a, seed):
            old = STREAMS.use(STREAMS.new(seed))
            try:
                return 'ok', norm(w.call(ref, a))
            except S.SimAbort:
                raise
            except Exception as e:
                return 'raised', type(e).__name__
            finally:
                STREAMS.use(old)

        def again(f, step, obj, L, U, seed, want):
            with S.quiet():
                a = w.args(f, L, U, step)
                before = dict((k, snapshot(v)) for k, v in a.items())
                STREAMS.use(STREAMS.new(seed))
            busy.add(f)
            if len(busy) > 1:
                stat['overlap'] += 1
            try:
                r = w.call(obj, a)
            except S.SimAbort:
                raise
            except Exception as e:
                ctx.violate('raised', 'fold %d, selection %d of the shared %s raised %s: %s, alone it returns %s' % (
                    f, step, type(obj).__name__, type(e).__name__, str(e)[:150], W.short(want[1])))
                return None
            finally:
                busy.discard(f)
            with S.quiet():
                stat['calls'] += 1
                for k, v in a.items():
                    now = snapshot(v)
                    if now != before[k]:
                        ctx.violate('argument-changed', '%s changed the given %s: %s -> %s' % (
                            type(obj).__name__, k, W.short(before[k]), W.short(now)))
                got = norm(r)
                bad = w.judge(r, U)
                if bad is not None and w.judge(want[1], U) is None:
                    ctx.violate('invalid', 'fold %d, selection %d of the shared %s: %s' % (f, step, type(obj).__name__, bad))
                if got != want[1]:
                    if not w.random or same_shared(seed, f, step, L, U, want):
                        ctx.violate('different', 'fold %d, selection %d of the shared %s returned %s, alone it returns %s'
                                    % (f, step, type(obj).__name__, W.short(got), W.short(want[1])))
                else:
                    stat['equal'] += 1
            return (r,)

        def fold(f):
            L, U = list(w.folds[f]['L']), list(w.folds[f]['U'])
            obj = objs[f if w.own else 0]
            for step in range(plan['steps']):
                if not U:
                    break
                with S.quiet():
                    seed = plan['salt'] * 1009 + f * 101 + step
                    want = solo(refs[f] if w.own else fresh(0), w.args(f, L, U, step), seed)
                    if want[0] == 'raised':
                        # the strategy cannot handle this input even alone
                        ctx.probe('skipped:%s' % w.name)
                        break
                for rep in range(1 if w.own else plan.get('reps', 1)):
                    r = again(f, step, obj, L, U, seed, want)
                    if r is None:
                        return
                with S.quiet():
                    w.after(f, L, U, w.items(r[0]))

        def same_shared(seed, f, step, L, U, want):
            """Whether a randomised strategy is a function of its arguments and the global random stream.

            A strategy may own a random generator; then only the validity of the choice is specified.
            """
            o = fresh(0)
            for g in range(3):
                solo(o, w.args(f, L, U, step), seed + 7 * g + 1)
                if solo(o, w.args(f, L, U, step), seed) != want:
                    return False
            return True

        def main(sim):
            STREAMS.of.clear()
            sim.on_switch = STREAMS.on_switch
            ths = [threading.Thread(target=fold, args=(f,), name='fold%d' % f) for f in range(plan['folds'])]
            for t in ths:
                t.start()
            for t in ths:
                t.join()

        _, sim = ctx.run('shared', S.Params(**plan['params']), main)
        for e in sim.thread_errors:
            ctx.violate('fold-error', 'a fold raised: %s' % (e,))
        if (snapshot(w.X), snapshot(w.y)) != (X0, y0):
            ctx.violate('data-changed', 'the data handed to %s was changed' % w.name)
        ctx.probe('strategy:%s' % w.name)
        ctx.probe('selections', stat['calls'])
        ctx.probe('selections-equal-to-solo', stat['equal'])
        ctx.trivial = not stat['overlap']


CHECK = C15
