"""C26: seeded runs are reproducible, whatever the circumstances."""
import copy
import os
import random

import joblib
import numpy as np
from sklearn.linear_model import LogisticRegression

from alipy import ToolBox
from alipy.data_manipulate import split, split_features, split_multi_label
from alipy.experiment import AlExperiment, State
from alipy.index import IndexCollection
from alipy.oracle import Oracle, Oracles

from .. import sim as S
from .. import toys as T
from .. import work as W
from ..runner import Check
from . import c15

STRATS = ['QueryInstanceRandom', 'QueryInstanceRandom', 'QueryRandom', 'QueryInstanceQBC', 'QueryInstanceQBC',
          'QueryInstanceUncertainty', 'QueryInstanceGraphDensity', 'QueryInstanceQUIRE', 'QueryExpectedErrorReduction',
          'custom']
DRAWING = sorted(k for k, v in c15.CATALOGUE.items() if v[2])


def plain(v):
    """A value of the library, comparable (with order)."""
    if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim) or isinstance(v, IndexCollection):
        return tuple(plain(x) for x in v)
    return W.canon(v)


class C26(Check):
    id = 'C26'
    title = 'reproducible seeded runs'
    rule = ('A run = a program that splits data (all query types), uses a ToolBox, an experiment (sequential, or multi-threaded with '
            'one slot), a query strategy of the catalogue of C15 or a pool of oracles, executed after seeding the global random '
            'generators; then another program, which may be broken off by disk errors or an interrupt; then the first one again '
            'with the same seed under another schedule, other clocks and in another or a used directory, and with another seed. '
            'Non-trivial: the program drew random numbers.')
    components = {'real': ['alipy.data_manipulate', 'alipy.ToolBox', 'alipy.experiment', 'alipy.query_strategy', 'alipy.oracle',
                           'aceThreading', 'scikit-learn', 'numpy and Python random generators'],
                  'stub': ['scheduler', 'clocks', 'file writes', 'toy model (part of the runs)',
                           'LAL training data (40 random rows)']}
    assumptions = ['PyPy: sets and dictionaries are ordered by insertion, so that hash seeds cannot matter here',
                   'folds of a multi-threaded run share one random stream: reproducible only with one slot']
    quick_s = 35

    # ------------------------------------------------------------------ plans
    def program(self, rng):
        kind = rng.choice(['split', 'split', 'toolbox', 'experiment', 'experiment', 'experiment', 'strategy', 'strategy', 'strategy',
                           'pool'])
        p = {'kind': kind, 'seed': rng.randrange(10 ** 6), 'n': rng.randrange(12, 26), 'k': rng.choice([2, 2, 3]),
             'count': rng.choice([1, 2, 3]), 'rate': rng.choice([0.2, 0.3, 0.4]), 'test': rng.choice([0.2, 0.3]),
             'all': rng.random() < 0.6, 'save': rng.random() < 0.6}
        if kind == 'split':
            p.update({'type': rng.choice(['single', 'single', 'noy', 'multi', 'ymat', 'multishape', 'partial', 'feat', 'featshape']),
                      'names': rng.random() < 0.3, 'm': rng.choice([3, 4]), 'zero': rng.random() < 0.15})
        elif kind == 'toolbox':
            p.update({'type': rng.choice(['AllLabels', 'AllLabels', 'PartLabels', 'Features']), 'strategy':
                      rng.choice(['QueryInstanceRandom', 'QueryInstanceQBC', 'QueryInstanceUncertainty']), 'm': 3,
                      'save': rng.random() < 0.7})
        elif kind == 'experiment':
            st = rng.choice(STRATS)
            p.update({'strategy': st, 'par': rng.random() < 0.4, 'sk': rng.random() < 0.5, 'given': rng.random() < 0.3,
                      'batch': rng.choice([1, 1, 2, 3]), 'stop': rng.randrange(1, 4), 'refresh': rng.choice([0.01, 1.0, 1e6])})
            if st in ('QueryInstanceQUIRE', 'QueryExpectedErrorReduction', 'QueryInstanceGraphDensity'):
                p['n'] = rng.randrange(16, 22)
                p['k'] = 2
                p['count'] = min(p['count'], 2)
        elif kind == 'strategy':
            # those which draw random numbers themselves come up more often
            q = c15.CHECK().gen_plan(rng, 'quick', DRAWING if rng.random() < 0.6 else None)
            q['folds'] = 1
            p['plan'] = q
        else:
            p.update({'oracles': rng.choice([2, 3, 4]), 'queries': rng.choice([2, 4, 8])})
        return p

    def gen_plan(self, rng, tier):
        fp = {k: rng.choice([0.05, 0.3]) for k in rng.sample(['enospc', 'eio_write', 'eopen', 'erename'], 2)} \
            if rng.random() < 0.5 else {}
        main = self.program(rng)
        # only the folds and the reporter of a multi-threaded run can be preempted
        gap = rng.choice([10, 50, 200]) if main.get('par') else 0
        return {'main': main, 'other': self.program(rng), 'seed': rng.randrange(2 ** 31), 'used': rng.random() < 0.4,
                'faults': fp, 'again': rng.choice([1, 1, 2]), 'params': W.gen_params(rng, line_gap=gap)}

    def shrink(self, p):
        for key, val in (('count', 1), ('save', False), ('all', False)):
            if p['main'].get(key, val) != val:
                q = copy.deepcopy(p)
                q['main'][key] = val
                yield q
        if p['other']['kind'] != 'pool':
            q = copy.deepcopy(p)
            q['other'] = {'kind': 'pool', 'seed': 1, 'n': 12, 'k': 2, 'oracles': 2, 'queries': 2}
            yield q

    # ------------------------------------------------------------------ programs
    def perform(self, p, root, ctx):
        home = os.getcwd()
        os.chdir(root)      # some entry points save their split into the working directory
        try:
            return self.body(p, root, ctx)
        finally:
            os.chdir(home)

    def body(self, p, root, ctx):
        rng = random.Random(p['seed'])
        if p['kind'] == 'strategy':
            return self.strategy(p, rng, root, ctx)
        X, y = T.blobs(rng, p['n'], p['k'], 4)
        if p['kind'] == 'split':
            return self.split(p, rng, root, X, y)
        if p['kind'] == 'toolbox':
            return self.toolbox(p, rng, root, X, y)
        if p['kind'] == 'experiment':
            return self.experiment(p, rng, root, X, y)
        pool = Oracles()
        for o in range(p['oracles']):
            pool.add_oracle('o%d' % o, Oracle(np.array([(v + o) % 7 for v in range(p['n'])]), cost=np.full(p['n'], o + 1)))
        out = [plain(pool.query_from([rng.randrange(p['n'])])) for _ in range(p['queries'])]
        return out + [plain(pool.cost_inall)]

    def split(self, p, rng, root, X, y):
        kw = {'test_ratio': p['test'], 'split_count': p['count'], 'saving_path': root if p['save'] else None}
        names = ['x%d' % (i * 7 % p['n']) for i in range(p['n'])] if p['names'] and not p['save'] else None
        n, m = p['n'], p['m']
        Y = np.array([[1 if rng.random() < 0.5 else 0 for _ in range(m)] for _ in range(n)])
        if p.get('zero'):
            Y[:, 0] = 0     # a class without any instance
        if p['type'] == 'ymat':
            r = split(X=X, y=Y, instance_indexes=names, query_type='AllLabels', initial_label_rate=p['rate'], all_class=p['all'], **kw)
        elif p['type'] == 'single':
            r = split(X=X, y=y, instance_indexes=names, query_type='AllLabels', initial_label_rate=p['rate'], all_class=p['all'], **kw)
        elif p['type'] == 'noy':
            r = split(X=X, instance_indexes=names, query_type='AllLabels', initial_label_rate=p['rate'], all_class=False, **kw)
        elif p['type'] == 'partial':
            r = split(X=X, y=Y, query_type='PartLabels', initial_label_rate=p['rate'], all_class=p['all'], **kw)
        elif p['type'] == 'multi':
            r = split_multi_label(y=Y, initial_label_rate=p['rate'], all_class=p['all'], **kw)
        elif p['type'] == 'multishape':
            r = split_multi_label(label_shape=(n, m), initial_label_rate=p['rate'], all_class=False, **kw)
        elif p['type'] == 'feat':
            r = split_features(feature_matrix=X, missing_rate=1 - p['rate'], all_features=p['all'], **kw)
        else:
            r = split_features(feature_matrix_shape=(n, m), missing_rate=1 - p['rate'], all_features=p['all'], **kw)
        return [plain(r)]

    def toolbox(self, p, rng, root, X, y):
        if p['type'] == 'PartLabels':
            y = np.array([[1 if rng.random() < 0.5 else 0 for _ in range(p['m'])] for _ in range(p['n'])])
        tb = ToolBox(X=X, y=y, query_type=p['type'], saving_path=root if p['save'] else None)
        tb.split_AL(test_ratio=p['test'], initial_label_rate=p['rate'], split_count=p['count'], all_class=p['all'])
        out = [plain(tb.get_split())]
        if p['type'] != 'AllLabels':
            return out
        strategy = tb.get_query_strategy(p['strategy'])
        model = tb.get_default_model()
        for i in range(p['count']):
            train, test, L, U = tb.get_split(i)
            saver = tb.get_stateio(i, verbose=False)
            kw = {}
            if p['strategy'] != 'QueryInstanceRandom':
                if len(set(y[L.index])) < 2:
                    continue
                kw['model'] = model
            for _ in range(3):
                if kw:
                    model.fit(X[L.index], y[L.index])
                with joblib.parallel_backend('sequential'):
                    s = strategy.select(L, U, batch_size=1, **kw)
                L.update(s)
                U.difference_update(s)
                saver.add_state(State(select_index=s, performance=0.5))
                if p['save']:
                    saver.save()
            out.append(W.canon_io(saver))
            out.append(plain(s))
        return out

    def experiment(self, p, rng, root, X, y):
        model = LogisticRegression(solver='liblinear') if p['sk'] else T.ToyModel()
        kw = {}
        if p['given']:
            s = T.make_split(rng, p['n'], p['count'], 4, y)
            kw = {'train_idx': s[0], 'test_idx': s[1], 'label_idx': s[2], 'unlabel_idx': s[3]}
        al = AlExperiment(X, y, model=model, stopping_criteria='num_of_queries', stopping_value=p['stop'],
                          batch_size=p['batch'], **kw)
        out = []
        if not p['given']:
            out.append(plain(al.split_AL(test_ratio=p['test'], initial_label_rate=p['rate'], split_count=p['count'])))
        if p['strategy'] == 'custom':
            al.set_query_strategy(T.ToyStrategy, salt=3)
        else:
            al.set_query_strategy(p['strategy'])
        al.set_performance_metric('accuracy_score')
        with joblib.parallel_backend('sequential'):
            if p['par']:
                al.start_query(multi_thread=True, max_thread=1, refresh_interval=p['refresh'], saving_path=root)
            else:
                al.start_query(multi_thread=False, verbose=False, **({'saving_path': root} if p['save'] else {}))
        return out + [W.canon_io(r) for r in al.get_experiment_result()]

    def strategy(self, p, rng, root, ctx):
        class At(object):
            pass
        at = At()
        at.root = root
        with S.quiet():
            w = c15.World(p['plan'], random.Random(p['plan']['seed']), at)
        with joblib.parallel_backend('sequential'):
            obj = w.make(0)
        L, U = list(w.folds[0]['L']), list(w.folds[0]['U'])
        out = []
        for step in range(p['plan']['steps']):
            if not U:
                break
            r = w.call(obj, w.args(0, L, U, step))
            out.append(c15.norm(r))
            w.after(0, L, U, w.items(r))
        return out

    # ------------------------------------------------------------------ run
    def attempt(self, ctx, label, prog, seed, root, params):
        """What the program returned or raised, the random numbers that follow, and whether it drew any."""
        box = {}

        def main(sim):
            np.random.seed(seed & 0xffffffff)
            random.seed(seed)
            with S.quiet():
                start = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate())
            try:
                box['r'] = ('returned', self.perform(prog, root, ctx))
            except S.SimAbort:
                raise
            except KeyboardInterrupt:
                box['r'] = ('interrupted', None)
            except Exception as e:
                box['r'] = ('raised', type(e).__name__)
                box['text'] = str(e)[:150]
            with S.quiet():
                end = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate())
                box['drew'] = start != end
                box['next'] = (float(np.random.random_sample()), random.random())

        os.makedirs(root, exist_ok=True)
        _, sim = ctx.run(label, S.Params(**params), main, root=root)
        return box, sim

    def execute(self, plan, ctx):
        prog, seed = plan['main'], plan['seed']
        c15.STREAMS.use(c15.STREAMS.new(seed))
        state = random.getstate()
        calm = dict(plan['params'], fault_p={}, max_faults=0, intr_gap=0)
        storm = dict(plan['params'], fault_p=plan['faults'], max_faults=3)
        try:
            a, sim = self.attempt(ctx, 'first', prog, seed, os.path.join(ctx.root, 'a'), calm)
            if ctx.violations:
                return
            if sim.thread_errors and a['r'][0] == 'returned':
                a['r'] = ('raised', 'in a fold')
            for i in range(plan['again']):
                self.attempt(ctx, 'other%d' % i, plan['other'], seed * 7 + i + 1, os.path.join(ctx.root, 'o%d' % i), storm)
                used = plan['used'] and prog['kind'] in ('split', 'experiment', 'strategy')
                b, sim = self.attempt(ctx, 'again%d' % i, prog, seed, os.path.join(ctx.root, 'a' if used else 'b%d' % i), calm)
                if sim.thread_errors and b['r'][0] == 'returned':
                    b['r'] = ('raised', 'in a fold')
                what = self.name(prog)
                if a['r'] != b['r']:
                    ctx.violate('different', '%s gives another result when it is repeated with the same seed: %s != %s' % (
                        what, W.short(a['r']), W.short(b['r'])))
                elif a['next'] != b['next']:
                    ctx.violate('stream', '%s leaves another random stream behind when it is repeated with the same seed' % what)
                if ctx.violations:
                    return
            c, _ = self.attempt(ctx, 'seed', prog, seed + 1, os.path.join(ctx.root, 'c'), calm)
            for nm, x, y in zip(('numpy', 'Python'), a['next'], c['next']):
                if x == y:
                    ctx.violate('reseeded', '%s resets the %s random generator of the program' % (self.name(prog), nm))
            ctx.probe('kind:' + prog['kind'])
            # the outcomes reached count as well as the schedules
            ctx.interleaving.update(repr((a['r'], a['next'])).encode())
            ctx.probe(a['r'][0])
            ctx.trivial = not a.get('drew') or a['r'][0] != 'returned'
        finally:
            random.setstate(state)

    def name(self, p):
        if p['kind'] == 'strategy':
            return p['plan']['strategy']
        if p['kind'] == 'experiment':
            return 'an experiment with ' + p['strategy']
        return {'split': 'splitting (%s)' % p.get('type'), 'toolbox': 'a ToolBox program (%s)' % p.get('type'),
                'pool': 'a pool of oracles'}[p['kind']]


CHECK = C26
