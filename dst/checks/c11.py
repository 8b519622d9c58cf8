"""C11: every fold of an experiment stops by its own budget."""
import copy
import random

import numpy as np

from alipy.experiment import AlExperiment

from .. import sim as S
from .. import toys as T
from .. import work as W
from ..runner import Check


class Broken(Exception):
    """The user's strategy fails."""


class Breaker(object):
    """Lets a selection of a run fail."""

    def __init__(self, at, kind):
        self.left = at
        self.kind = kind

    def fit(self, model, X):
        pass

    def fitted(self, model, X):
        pass

    def select(self, L, U, b):
        self.left -= 1
        if self.left == 0:
            raise self.kind('the strategy fails')

    def selected(self, r):
        pass


class Watch(object):
    """Records, per fold, when it began, selected and ended (simulated time)."""

    def __init__(self, sim, par):
        self.sim = sim
        self.par = par
        self.folds = []              # dict(task, begin, first, selects=[(prev_end, at)], last)
        self.cur = {}
        self.tasks = {}

    def key(self):
        self.tasks[self.sim.me().id] = self.sim.me()
        return self.sim.me().id if self.par else 0

    def fit(self, model, X):
        f = self.cur.get(self.key())
        if f is None or f['phase'] == 'trained':
            # a training that no selection precedes: a new fold
            f = {'begin': self.sim.now, 'selects': [], 'last': None, 'phase': 'training', 'key': self.key()}
            self.cur[self.key()] = f
            self.folds.append(f)
        f['phase'] = 'training'

    def fitted(self, model, X):
        f = self.cur[self.key()]
        f['phase'] = 'trained'
        f['last'] = self.sim.now

    def select(self, L, U, b):
        f = self.cur[self.key()]
        f['selects'].append((f['last'], self.sim.now))
        f['phase'] = 'selecting'

    def selected(self, r):
        pass


class C11(Check):
    id = 'C11'
    title = 'per-fold budgets'
    rule = ('A run = one experiment (1-4 folds, random stopping rule and batch size, training that takes simulated time) '
            'executed once or twice, sequentially and/or multi-threaded with a random thread limit under a seeded scheduler '
            'with stalls and wall-clock jumps. Non-trivial: at least two folds, or a repeated run.')
    components = {'real': ['alipy.experiment.AlExperiment', 'StoppingCriteria', 'aceThreading', 'StateIO', 'threading.Thread'],
                  'stub': ['model and user-defined strategy (deterministic, take simulated time)', 'scheduler', 'clocks',
                           'file writes']}
    assumptions = ['the time budget of a fold may start anywhere between its first training and its first selection']
    quick_s = 35

    def gen_plan(self, rng, tier):
        sc = rng.choice([None, 'num_of_queries', 'num_of_queries', 'percent_of_unlabel', 'time_limit', 'time_limit',
                         'time_limit'])
        sv = {None: None, 'num_of_queries': rng.choice([0, 1, 2, 3, 5, 40]),
              'percent_of_unlabel': rng.choice([0.1, 0.2, 0.25, 0.34, 0.5, 0.75, 1.0]),
              'time_limit': rng.choice([1.0, 5.0, 10, 25.0, 60.0])}[sc]
        return {'n': rng.randrange(12, 26), 'k': 2, 'folds': rng.choice([1, 2, 2, 3, 4]), 'nl': rng.choice([2, 3, 5]),
                'stop': [sc, sv], 'batch': rng.choice([1, 1, 2, 3, 5]), 'max_thread': rng.choice([None, 1, 1, 2]),
                'refresh': rng.choice([0.5, 1.0, 1e6]), 'cost': rng.choice([0.0, 0.5, 2.0, 7.0]),
                'modes': rng.choice([['seq'], ['par'], ['seq', 'seq'], ['par', 'par'], ['par', 'seq'], ['seq', 'par']]),
                'broken': [rng.choice(['seq', 'seq', 'par']), rng.randrange(1, 9), rng.random() < 0.4] if rng.random() < 0.3 else None,
                'idle': rng.choice([0, 0, 30.0, 500.0]), 'salt': rng.randrange(100), 'seed': rng.randrange(10 ** 6),
                'params': W.gen_params(rng, jump_p=rng.choice([0, 0.05, 0.2]), line_gap=rng.choice([0, 20, 60, 200]),
                                       tick=rng.choice([1e-4, 0.003, 0.02]))}

    def shrink(self, p):
        for key, val in (('folds', 1), ('folds', 2), ('batch', 1), ('modes', p['modes'][:1]), ('modes', p['modes'][1:]),
                         ('idle', 0), ('cost', 0.0), ('broken', None)):
            if val is None:
                if p.get(key):
                    q = copy.deepcopy(p)
                    q[key] = None
                    yield q
            elif val and p[key] != val or (val in (0, 0.0) and p[key]):
                q = copy.deepcopy(p)
                q[key] = val
                yield q

    def execute(self, plan, ctx):
        import time
        rng = random.Random(plan['seed'])
        X, y = T.blobs(rng, plan['n'], plan['k'])
        split = T.make_split(rng, plan['n'], plan['folds'], plan['nl'], y)
        sc, sv = plan['stop']
        b = plan['batch']
        runs = []

        def main(sim):
            al = AlExperiment(X, y, model=T.ToyModel(cost=plan['cost']), stopping_criteria=sc, stopping_value=sv,
                              batch_size=b, train_idx=split[0], test_idx=split[1], label_idx=split[2],
                              unlabel_idx=split[3])
            al.set_query_strategy(T.ToyStrategy, salt=plan['salt'])
            al.set_performance_metric('accuracy_score')
            if plan['idle']:
                time.sleep(plan['idle'])
            if plan.get('broken'):
                # a run that the user's strategy (or the user) breaks off
                mode, at, stop = plan['broken']
                T.HOOK = Breaker(at, KeyboardInterrupt if stop and mode == 'seq' else Broken)
                try:
                    if mode == 'par':
                        al.start_query(multi_thread=True, max_thread=plan['max_thread'],
                                       refresh_interval=plan['refresh'], saving_path=ctx.root)
                    else:
                        al.start_query(multi_thread=False, verbose=False)
                except (Broken, KeyboardInterrupt):
                    ctx.probe('broken_off')
                finally:
                    T.HOOK = None
            for mode in plan['modes']:
                w = T.HOOK = Watch(sim, mode == 'par')
                try:
                    if mode == 'par':
                        al.start_query(multi_thread=True, max_thread=plan['max_thread'],
                                       refresh_interval=plan['refresh'], saving_path=ctx.root)
                    else:
                        al.start_query(multi_thread=False, verbose=False)
                    end = sim.now
                    with S.quiet():
                        runs.append((mode, w, [W.canon_io(r) for r in al.get_experiment_result()], end))
                finally:
                    T.HOOK = None

        try:
            _, sim = ctx.run('main', S.Params(**plan['params']), main)
        except (S.Violation, S.HarnessError):
            raise
        except Exception as e:
            ctx.violate('error', 'the experiment raised %s: %s' % (type(e).__name__, str(e)[:200]))
            return
        for e in sim.thread_errors:
            if plan.get('broken') and 'Broken' in e:
                continue
            ctx.violate('fold-error', 'a fold raised: %s' % (e,))
        if ctx.violations:
            return
        for rn, (mode, w, res, end) in enumerate(runs):
            tag = '%s run %d' % (mode, rn)
            if len(res) != plan['folds']:
                ctx.violate('folds', '%s: %d results for %d folds' % (tag, len(res), plan['folds']))
                continue
            for i, r in enumerate(res):
                nu = len(split[3][i])
                most = -(-nu // b)
                got = r['n']
                if sum(r['batch']) > nu or any(x > b for x in r['batch']):
                    ctx.violate('batch', '%s: fold %d queried batches %s from %d items with batch size %d'
                                % (tag, i, r['batch'], nu, b))
                if sc is None:
                    exp = most
                elif sc == 'num_of_queries':
                    exp = min(int(sv), most)
                elif sc == 'percent_of_unlabel':
                    exp = 0
                    while exp < most and (min(exp * b, nu)) / nu < sv:
                        exp += 1
                else:
                    exp = None
                if exp is not None and got != exp:
                    ctx.violate('budget', '%s: fold %d performed %d queries instead of %d (%s=%s, pool %d, batch %d)'
                                % (tag, i, got, exp, sc, sv, nu, b))
                ctx.probe('folds_checked')
            if sc != 'time_limit':
                continue
            # time limits: folds in the order they began
            if len(w.folds) != plan['folds']:
                ctx.violate('folds', '%s: %d folds were trained instead of %d' % (tag, len(w.folds), plan['folds']))
                continue
            counts = sorted(len(f['selects']) for f in w.folds)
            if counts != sorted(r['n'] for r in res):
                ctx.violate('budget', '%s: selections %s but recorded queries %s' % (tag, counts, [r['n'] for r in res]))
            for j, f in enumerate(w.folds):
                nu = len(split[3][j])
                most = -(-nu // b)
                start_lo = f['begin']
                n = len(f['selects'])
                start_hi = f['selects'][0][1] if n else None
                for q, (prev, at) in enumerate(f['selects']):
                    if q and prev - start_hi >= sv:
                        ctx.violate('overrun', '%s: fold %d still selects %.2fs after its start, time limit %s'
                                    % (tag, j, prev - start_hi, sv))
                        break
                if n >= most:
                    continue
                # it must have ended because its own time was over
                later = [g['begin'] for g in w.folds[j + 1:]] if mode == 'seq' else []
                fin = later[0] if later else end
                if mode == 'par' and w.tasks[f['key']].done_at is not None:
                    fin = w.tasks[f['key']].done_at
                if fin - start_lo < sv:
                    ctx.violate('cut-short', '%s: fold %d stopped after %d of %d possible queries, at most %.2fs after its '
                                'start although the time limit is %s' % (tag, j, n, most, fin - start_lo, sv))
        ctx.trivial = not (plan['folds'] > 1 or len(plan['modes']) > 1)


CHECK = C11
