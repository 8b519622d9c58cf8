"""Workload generators, reference model of a fold record, canonical forms."""
import copy
import os

import numpy as np

from alipy.experiment import State, StateIO
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.index.index_collections import FeatureIndexCollection
from alipy.utils.interface import BaseCollection


# --------------------------------------------------------------------------- canonical forms

def canon(v):
    """A comparable, order-preserving, type-lenient form of a stored value."""
    if isinstance(v, BaseCollection):
        return ('coll',) + tuple(sorted((canon(x) for x in v.index), key=repr))
    if isinstance(v, np.ndarray):
        return ('seq',) + tuple(canon(x) for x in v.tolist()) if v.ndim else canon(v.item())
    if isinstance(v, np.generic):
        return canon(v.item())
    if isinstance(v, (list, tuple)):
        return ('seq',) + tuple(canon(x) for x in v)
    if isinstance(v, dict):
        return ('map',) + tuple(sorted(((canon(k), canon(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted((canon(x) for x in v), key=repr))
    if isinstance(v, float):
        if v != v:
            return 'nan'
        return float(v)
    if isinstance(v, bool):
        return v
    return v


def canon_items(coll, label_size=None):
    """Sorted list of the elements of an index container; keeps duplicates."""
    if isinstance(coll, BaseCollection):
        xs = list(coll.index)
    elif isinstance(coll, np.ndarray):
        xs = coll.tolist()
    else:
        xs = list(coll)
    return sorted((canon(x) for x in xs), key=repr)


def canon_state(st):
    return tuple((k, canon(st.get_value(k))) for k in sorted(st.keys()))


def canon_io(s, workspace=True):
    """Everything a user can observe of a fold record."""
    d = {'round': s.round, 'train': canon(s.train_idx), 'test': canon(s.test_idx),
         'initial_point': canon(s.initial_point), 'n': len(s), 'num_of_query': s.num_of_query(),
         'states': [canon_state(s.get_state(i)) for i in range(len(s))],
         'batch': [s.get_state(i).batch_size for i in range(len(s))]}
    if workspace:
        tr, te, L, U = s.get_workspace()
        d['L'] = canon_items(L)
        d['U'] = canon_items(U)
        tr, te, L, U = s.get_workspace(0)
        d['L0'] = canon_items(L)
        d['U0'] = canon_items(U)
        d['cost'] = round(float(s.cost_inall), 6)
        c = copy.deepcopy(s)
        nq, cost = c.refresh_info()
        d['numq'] = int(nq)
        d['rcost'] = round(float(cost), 6)
    return d


def maul(v):
    """Change an object in place, as a caller may do with what is its own."""
    if isinstance(v, np.ndarray):
        if v.size and v.flags.writeable:
            v[...] = v.ravel()[::-1].reshape(v.shape)
            if v.dtype.kind in 'iuf':
                v += 3
    elif isinstance(v, list):
        for x in v:
            maul(x)
        v.append(v[0] if v else 7)
        v.reverse()
    elif isinstance(v, tuple):
        for x in v:
            maul(x)
    elif isinstance(v, dict):
        for x in list(v.values()):
            maul(x)
        v['mauled'] = 1


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            return '%s: %s != %s' % (k, short(a[k]), short(b.get(k)))
    for k in b:
        if k not in a:
            return 'extra %s' % k
    return 'equal'


def short(x, n=160):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...'


# --------------------------------------------------------------------------- folds

MULTI = ('multi', 'feature', 'pairs', 'mixed')      # (example, label) pairs
KINDS = ('list', 'ndarray', 'coll', 'multi', 'feature', 'list', 'coll', 'multi', 'pairs', 'mixed', 'mixed1')


def gen_fold(rng, round_=0, kinds=KINDS, big=False):
    kind = rng.choice(kinds)
    if kind in MULTI:
        rows = rng.randrange(2, 6)
        labels = rng.randrange(2, 5)
        nl = rng.randrange(1, rows)
        return {'kind': kind, 'rows': rows, 'labels': labels, 'nl': nl, 'round': round_, 'base': rng.randrange(0, 40)}
    n = rng.randrange(4, 60 if big else 22)
    nl = rng.randrange(1, max(2, n // 3))
    return {'kind': kind, 'n': n, 'nl': nl, 'round': round_, 'base': rng.randrange(0, 40)}


def fold_sets(f):
    """Reference initial sets (plain python)."""
    if f['kind'] in MULTI:
        allp = [(r, c) for r in range(f['rows']) for c in range(f['labels'])]
        L = [p for p in allp if p[0] < f['nl']]
        U = [p for p in allp if p[0] >= f['nl']]
        return L, U
    ids = [f['base'] + 3 * i for i in range(f['n'])]
    rot = f['base'] % f['n']
    ids = ids[rot:] + ids[:rot]
    return ids[:f['nl']], ids[f['nl']:]


def fold_args(f):
    """train, test, L, U in the container kinds of the plan."""
    L, U = fold_sets(f)
    if f['kind'] in MULTI:
        train = list(range(f['rows']))
        test = [f['rows'] + i for i in range(3)]
        C = FeatureIndexCollection if f['kind'] == 'feature' else MultiLabelIndexCollection
        k = f['labels']
        if f['kind'] == 'pairs':
            return train, test, list(L), list(U)
        if f['kind'] == 'mixed':
            return (train, test, C(L, k), list(U)) if f['base'] % 2 else (train, test, list(L), C(U, k))
        return train, test, C(L, k), C(U, k)
    train = sorted(L + U)
    test = [1000 + f['round'] * 10 + i for i in range(4)]
    if f['kind'] == 'ndarray':
        return np.array(train), np.array(test), np.array(L), np.array(U)
    if f['kind'] == 'coll':
        return train, test, IndexCollection(L), IndexCollection(U)
    if f['kind'] == 'mixed1':
        return (train, test, IndexCollection(L), np.array(U)) if f['base'] % 2 else (train, test, list(L), IndexCollection(U))
    return train, test, list(L), list(U)


def make_io(f, **kw):
    train, test, L, U = fold_args(f)
    return StateIO(f['round'], train, test, L, U, **kw)


class Relative(object):
    """Paths are given relative to the working directory, which the program changes afterwards."""

    def __init__(self, ctx, on=True):
        self.on = on
        self.root = ctx if isinstance(ctx, str) else ctx.root
        self.away = self.root + '.cwd'

    def path(self, p):
        return os.path.relpath(p, self.root) if self.on else p

    def __enter__(self):
        if self.on:
            os.chdir(self.root)
        return self

    def __exit__(self, *a):
        if self.on:
            if not os.path.isdir(self.away):
                os.mkdir(self.away)
            os.chdir(self.away)


def gen_rounds(rng, n):
    """Numbers of the folds that share a directory."""
    if rng.random() < 0.5:
        return list(range(n))
    return rng.sample([0, 1, 2, 3, 9, 10, 11, 12, 20, 21, 30, 99, 100, 101, 110, 111, 1000], n)


class FoldModel(object):
    """The reference: initial sets and the list of recorded queries."""

    def __init__(self, f):
        self.f = f
        L, U = fold_sets(f)
        self.L0, self.U0 = list(L), list(U)
        self.states = []                 # dict(items, canon, cost, n)
        self.initial_point = None

    def copy(self):
        m = FoldModel(self.f)
        m.states = list(self.states)
        m.initial_point = self.initial_point
        return m

    def workspace(self, k=None):
        k = len(self.states) if k is None else k
        U = list(self.U0)
        L = list(self.L0)
        for st in self.states[:k]:
            for it in st['items']:
                if it in U:
                    U.remove(it)
                if it not in L:
                    L.append(it)
        return sorted((canon(x) for x in L), key=repr), sorted((canon(x) for x in U), key=repr)

    def unlabeled(self):
        U = set(self.U0)
        for st in self.states:
            U.difference_update(st['items'])
        return sorted(U)

    def canon_io(self):
        train, test, _, _ = fold_args(self.f)
        L, U = self.workspace()
        L0, U0 = self.workspace(0)
        cost = round(float(sum(s['cost'] for s in self.states)), 6)
        return {'round': self.f['round'], 'train': canon(train), 'test': canon(test),
                'initial_point': canon(self.initial_point), 'n': len(self.states), 'num_of_query': len(self.states),
                'states': [s['canon'] for s in self.states], 'batch': [s['n'] for s in self.states],
                'L': L, 'U': U, 'L0': L0, 'U0': U0, 'cost': cost, 'numq': sum(s['n'] for s in self.states),
                'rcost': cost}


def gen_query(rng, big=False, perf=None):
    """Parameters of one query; which items is settled against the current pool."""
    q = {'pick': [rng.randrange(1000) for _ in range(rng.choice([1, 1, 1, 2, 3]))],
         'form': rng.choice(['list', 'list', 'ndarray', 'coll', 'single', 'row']),
         'perf': perf or rng.choice(['f', 'f', 'f', 'np', 'zero', 'neg']), 'pv': round(rng.random(), 3),
         'cost': rng.choice([None, None, 'scalar', 'list', 'arr', 'zero']), 'cv': rng.randrange(1, 9),
         'lab': rng.choice([None, None, 'list', 'arr']), 'extra': rng.choice([0, 0, 0, 1, 2]),
         'old': [rng.randrange(1000), rng.randrange(4)] if rng.random() < 0.12 else None}
    if big:
        q['payload'] = rng.choice([0, 0, 50, 3000, 12000, 40000])
    return q


def build_query(q, model):
    """(State, model entry) for a query of the plan, or None when the pool is empty."""
    U = model.unlabeled()
    if not U:
        return None
    multi = model.f['kind'] in MULTI
    items = []
    for p in q['pick']:
        x = U[p % len(U)]
        if x not in items:
            items.append(x)
    form = q['form']
    if q.get('old') and form in ('list', 'ndarray'):
        # an item that has been labeled before is asked for again
        had = model.L0 + [x for st in model.states for x in st['items']]
        x = had[q['old'][0] % len(had)] if had else items[0]
        if x not in items:
            items.insert(min(q['old'][1], len(items)), x)
    given_n = len(items)
    if multi:
        if form == 'row':
            row = items[0][0]
            full = [(row, c) for c in range(model.f['labels'])]
            if all(x in U for x in full):
                items = full
                sel = [(row,)]
                given_n = 1
            else:
                sel = list(items)
        elif form == 'coll':
            C = FeatureIndexCollection if model.f['kind'] == 'feature' else MultiLabelIndexCollection
            sel = C(list(items), model.f['labels'])
        elif form == 'single':
            items = items[:1]
            sel = items[0]
            given_n = 1
        else:
            sel = list(items)
    else:
        if form == 'ndarray':
            sel = np.array(items)
        elif form == 'coll':
            sel = IndexCollection(list(items))
        elif form in ('single', 'row'):
            items = items[:1]
            sel = items[0]
            given_n = 1
        else:
            sel = list(items)
    if not isinstance(sel, (list, np.ndarray, BaseCollection)):
        given_n = 1
    elif isinstance(sel, list) and not (multi and form == 'row' and len(sel) == 1):
        given_n = len(sel)
    else:
        given_n = len(sel)
    perf = {'f': q['pv'], 'np': np.float64(q['pv']), 'list': [q['pv'], q['pv'] / 2], 'zero': 0.0,
            'neg': -q['pv']}[q['perf']]
    cost = {None: None, 'scalar': q['cv'], 'list': [q['cv']] * given_n, 'arr': np.full(given_n, q['cv'] + 0.5),
            'zero': 0}[q['cost']]
    lab = {None: None, 'list': [q['cv'] % 2] * given_n, 'arr': np.full(given_n, q['cv'])}[q['lab']]
    st = State(sel, perf, queried_label=lab, cost=cost)
    if q['extra'] >= 1:
        st.add_element('time', q['cv'] * 1.5)
    if q['extra'] >= 2:
        st.add_element('model', {'w': np.arange(4) * q['cv'], 'n': 'm%d' % q['cv']})
    if q.get('payload'):
        st.add_element('payload', 'x%d-' % q['cv'] * (q['payload'] // 3))
    c = 0.0 if cost is None else float(np.sum(cost))
    stored = sel if isinstance(sel, (list, np.ndarray, BaseCollection)) else [sel]
    d = {'select_index': canon(stored), 'performance': canon(perf)}
    if lab is not None:
        d['queried_label'] = canon(lab)
    if cost is not None:
        d['cost'] = canon(cost)
    if q['extra'] >= 1:
        d['time'] = q['cv'] * 1.5
    if q['extra'] >= 2:
        d['model'] = canon({'w': np.arange(4) * q['cv'], 'n': 'm%d' % q['cv']})
    if q.get('payload'):
        d['payload'] = 'x%d-' % q['cv'] * (q['payload'] // 3)
    entry = {'items': items, 'canon': tuple((k, d[k]) for k in sorted(d)), 'cost': c, 'n': given_n}
    return st, entry


def gen_params(rng, **over):
    """Swarm-style scheduler parameters."""
    d = {'line_gap': rng.choice([3, 8, 8, 20, 20, 60, 200, 0]), 'seam_p': rng.choice([0.05, 0.3, 0.3, 0.7]),
         'poll_self': rng.choice([0.0, 0.2, 0.6]), 'policy': rng.choice(['random', 'random', 'random', 'pct', 'starve']),
         'tick': rng.choice([1e-4, 0.003, 0.05, 0.3]), 'stall_p': rng.choice([0, 0, 0.01, 0.05]),
         'stall_len': rng.choice([5, 50, 400]), 'bufsize': rng.choice([1, 16, 128, 512, 4096, 8192, 65536]),
         'cpus': rng.choice([1, 1, 2, 4, 64])}
    d.update(over)
    return d
