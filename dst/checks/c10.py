"""C10: a multi-threaded experiment equals the sequential experiment."""
import copy
import os
import random

import numpy as np

from alipy.experiment import AlExperiment, StateIO
from alipy.index import IndexCollection

from .. import sim as S
from .. import toys as T
from .. import work as W
from ..runner import Check

STRATS = ['custom', 'custom', 'QueryInstanceUncertainty', 'QueryInstanceUncertainty', 'QueryInstanceGraphDensity',
          'QueryInstanceQUIRE', 'QueryExpectedErrorReduction']


def user_state(X, y, model, split):
    md = tuple(sorted((k, W.canon(v)) for k, v in model.__dict__.items()))
    return (X.tobytes(), y.tobytes(), md, W.canon([[list(map(int, r)) for r in s] for s in split]),
            tuple(type(r).__name__ for s in split for r in s))


class C10(Check):
    id = 'C10'
    title = 'multi-threaded experiment == sequential experiment'
    rule = ('A run = one experiment configuration (2-4 folds, deterministic strategy of ALiPy or a user-defined one, '
            'deterministic model whose training is not atomic, random stopping rule and batch size) executed sequentially and '
            'multi-threaded under a seeded scheduler with preemption at seeded lines, in seeded order, with the same objects. '
            'Non-trivial: two folds were training or selecting at the same time.')
    components = {'real': ['alipy.experiment.AlExperiment', 'aceThreading', 'query strategies of alipy', 'StateIO', 'metrics',
                           'threading.Thread'],
                  'stub': ['model (deterministic nearest-centroid with yield points)', 'user-defined strategy', 'scheduler',
                           'clocks', 'file writes']}
    assumptions = ['numpy and scikit-learn calls are atomic between yield points']
    quick_s = 40

    def gen_plan(self, rng, tier):
        k = rng.choice([2, 2, 3])
        strat = rng.choice(STRATS)
        big = strat in ('QueryExpectedErrorReduction', 'QueryInstanceQUIRE', 'QueryInstanceGraphDensity')
        n = rng.randrange(14, 20 if big else 30)
        if strat == 'QueryInstanceQUIRE':
            k = 2
        if strat == 'QueryInstanceGraphDensity':
            n = rng.randrange(19, 24)
        sc = rng.choice([None, 'num_of_queries', 'num_of_queries', 'num_of_queries', 'percent_of_unlabel'])
        sv = {None: None, 'num_of_queries': rng.randrange(1, 5), 'percent_of_unlabel': rng.choice([0.2, 0.4, 0.5])}[sc]
        if sc is None and (big or n > 20):
            sc, sv = 'num_of_queries', rng.randrange(1, 5)
        return {'n': n, 'k': k, 'folds': rng.choice([2, 2, 3, 4]), 'nl': rng.choice([2, 3, 4]), 'strategy': strat,
                'measure': rng.choice(['entropy', 'least_confident', 'margin']), 'metric':
                rng.choice(['accuracy_score', 'accuracy_score', 'zero_one_loss']),
                'stop': [sc, sv], 'batch': rng.choice([1, 1, 2, 3]), 'max_thread': rng.choice([None, None, 2, 2, 3, 3, 1]),
                'refresh': rng.choice([0.01, 1.0, 1e6]), 'form': rng.choice(['list', 'ndarray', 'coll']),
                'order': rng.choice(['seq-par', 'par-seq', 'par-par']), 'warm': rng.random() < 0.4,
                'seqsave': rng.random() < 0.5, 'shared': rng.random() < 0.6, 'salt': rng.randrange(100), 'seed': rng.randrange(10 ** 6),
                'params': W.gen_params(rng, line_gap=rng.choice([4, 10, 30, 100]))}

    def shrink(self, p):
        for key, val in (('folds', 2), ('batch', 1), ('warm', False), ('stop', ['num_of_queries', 1]),
                         ('stop', ['num_of_queries', 2])):
            if p[key] != val:
                q = copy.deepcopy(p)
                q[key] = val
                yield q

    def execute(self, plan, ctx):
        rng = random.Random(plan['seed'])
        X, y = T.blobs(rng, plan['n'], plan['k'])
        split = T.make_split(rng, plan['n'], plan['folds'], plan['nl'], y)
        if plan['form'] == 'ndarray':
            split = tuple([np.array(r) for r in s] for s in split)
        if plan['form'] == 'coll':
            split = split[:2] + tuple([IndexCollection(r) for r in s] for s in split[2:])
        model = T.ToyModel(warm=plan['warm'])

        class Hook(object):
            busy = set()
            overlap = 0

            def enter(self, *a):
                sim = S.SIM
                if sim is not None and sim.me() is not None:
                    self.busy.add(sim.me().id)
                    if len(self.busy) > 1:
                        self.overlap += 1

            def leave(self, *a):
                sim = S.SIM
                if sim is not None and sim.me() is not None:
                    self.busy.discard(sim.me().id)
            fit, fitted, select, selected = enter, leave, enter, leave
        hook = Hook()
        hook.busy = set()

        def make():
            al = AlExperiment(X, y, model=model if plan['shared'] else copy.deepcopy(model),
                              stopping_criteria=plan['stop'][0],
                              stopping_value=plan['stop'][1], batch_size=plan['batch'], train_idx=split[0],
                              test_idx=split[1], label_idx=split[2], unlabel_idx=split[3])
            if plan['strategy'] == 'custom':
                al.set_query_strategy(T.ToyStrategy, salt=plan['salt'])
            elif plan['strategy'] == 'QueryInstanceUncertainty':
                al.set_query_strategy(plan['strategy'], measure=plan['measure'])
            else:
                al.set_query_strategy(plan['strategy'])
            al.set_performance_metric(plan['metric'])
            return al

        before = user_state(X, y, model, split)
        results = []
        modes = plan['order'].split('-')
        one = []
        for j, mode in enumerate(modes):
            def main(sim):
                T.HOOK = hook
                try:
                    if plan['shared'] and one:
                        al = one[0]
                    else:
                        al = make()
                        one.append(al)
                    if mode == 'par':
                        al.start_query(multi_thread=True, max_thread=plan['max_thread'],
                                       refresh_interval=plan['refresh'], saving_path=ctx.root)
                    else:
                        al.start_query(multi_thread=False, verbose=False,
                                       **({'saving_path': ctx.root} if plan['seqsave'] else {}))
                    return al.get_experiment_result()
                except S.SimAbort:
                    raise
                except Exception as e:
                    ctx.violate('error', '%s run raised %s: %s' % (mode, type(e).__name__, str(e)[:200]))
                finally:
                    T.HOOK = None

            res, sim = ctx.run('%s%d' % (mode, j), S.Params(**plan['params']), main)
            for e in sim.thread_errors:
                ctx.violate('fold-error', 'a fold of the %s run raised: %s' % (mode, e))
            if ctx.violations:
                return
            results.append([W.canon_io(r) for r in res])
            if mode == 'par' or plan['seqsave']:
                for i, want in enumerate(results[-1]):
                    if not want['states']:
                        continue
                    p = os.path.join(ctx.root, *(['AL_result'] if mode == 'par' else []), 'AL_round_%d.pkl' % i)
                    try:
                        got = W.canon_io(StateIO.load(p))
                    except Exception as e:
                        ctx.violate('file', '%s run: the saved record of fold %d does not load: %s: %s' % (
                            mode, i, type(e).__name__, str(e)[:200]))
                        return
                    if got != want:
                        ctx.violate('file', '%s run: the saved record of fold %d is not its result: %s' % (
                            mode, i, W.diff(want, got)))
            after = user_state(X, y, model, split)
            if after != before:
                what = [nm for nm, a, b in zip(('X', 'y', 'model', 'splits', 'split types'), before, after) if a != b]
                ctx.violate('user-objects', 'running %s changed the user\'s %s' % (mode, what))
        a, b = results
        if len(a) != len(b):
            ctx.violate('folds', '%s run: %d results, %s run: %d' % (modes[0], len(a), modes[1], len(b)))
            return
        for i in range(len(a)):
            for key in ('states', 'initial_point', 'L', 'U', 'L0', 'U0', 'train', 'test', 'round'):
                if a[i][key] != b[i][key]:
                    ctx.violate('different', 'fold %d: %s of the %s and the %s run differ: %s != %s' % (
                        i, key, modes[0], modes[1], W.short(a[i][key]), W.short(b[i][key])))
                    break
        ctx.trivial = not hook.overlap


CHECK = C10
