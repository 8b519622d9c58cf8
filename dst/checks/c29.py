"""C29: the record of an experiment's fold is that of the active learning loop it stands for."""
import copy
import math
import os
import random
import threading
import zlib

import numpy as np

from alipy.experiment import AlExperiment
from alipy.index import IndexCollection

from .. import sim as S
from .. import toys as T
from .. import work as W
from ..runner import Check

STRATS = ['custom', 'custom', 'QueryInstanceUncertainty', 'QueryInstanceUncertainty', 'QueryInstanceUncertainty',
          'QueryInstanceUncertainty', 'QueryInstanceUncertainty',
          'QueryInstanceRandom', 'QueryRandom', 'QueryInstanceQBC', 'QueryExpectedErrorReduction', 'QueryInstanceGraphDensity', 'QueryInstanceQUIRE']


def best(p, measure):
    """How much a row of class probabilities asks to be queried."""
    p = sorted((float(v) for v in p), reverse=True)
    if measure == 'entropy':
        return -sum(v * math.log(v) for v in p if v > 0)
    if measure == 'least_confident':
        return 1 - p[0]
    return p[1] - p[0]


class C29(Check):
    id = 'C29'
    title = 'experiments refine the active learning loop'
    rule = ('A run = one or two experiments (1-4 folds, random strategy, metric, stopping rule, batch size and split) over the same '
            'data and model object, run repeatedly in one thread or many, with new splits and metrics in between; two '
            'experiments run at the same time in two threads of the program. Every record is compared step by step with a '
            'reference loop over plain sets. Non-trivial: more than one fold or more than one run.')
    components = {'real': ['alipy.experiment.AlExperiment', 'aceThreading', 'StateIO', 'StoppingCriteria', 'query strategies',
                           'metrics', 'IndexCollection', 'threading.Thread'],
                  'stub': ['model and user-defined strategy (deterministic)', 'scheduler', 'clocks', 'file writes']}
    assumptions = ['numpy and scikit-learn calls are atomic between yield points']
    quick_s = 35

    def gen_plan(self, rng, tier):
        two = rng.random() < 0.4
        n = rng.randrange(14, 24)
        exps = []
        for e in range(2 if two else 1):
            st = rng.choice(STRATS)
            runs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                runs.append({'mode': rng.choice(['par', 'par', 'par', 'seq']), 'max_thread': rng.choice([None, None, 1, 2, 3]),
                             'split': rng.choice([None, None, 'given', 'split_AL']) if runs else rng.choice(['init', 'given', 'split_AL']),
                             'folds': rng.choice([1, 2, 2, 3, 4]), 'nl': rng.choice([2, 3, 5]), 'seed': rng.randrange(1 << 30),
                             'metric': rng.choice([None, 'accuracy_score', 'zero_one_loss']) if runs else
                             rng.choice(['accuracy_score', 'zero_one_loss']), 'saving': rng.random() < 0.5,
                             'refresh': rng.choice([0.01, 1.0, 1e6])})
                if st in ('QueryInstanceGraphDensity', 'QueryExpectedErrorReduction'):
                    break                       # the one remembers what it selected, the other takes long
            sc = rng.choice([None, 'num_of_queries', 'num_of_queries', 'num_of_queries', 'percent_of_unlabel'])
            sv = {None: None, 'num_of_queries': rng.randrange(1, 5), 'percent_of_unlabel': rng.choice([0.2, 0.4, 0.5])}[sc]
            exps.append({'strategy': st, 'measure': rng.choice(['entropy', 'least_confident', 'margin']), 'runs': runs,
                         'stop': [sc, sv], 'batch': rng.choice([1, 1, 2, 3]), 'salt': rng.randrange(1, 100),
                         'form': rng.choice(['list', 'ndarray', 'coll'])})
        if any(e['strategy'] == 'QueryInstanceGraphDensity' for e in exps):
            n = rng.randrange(19, 24)
        return {'n': n, 'k': rng.choice([2, 2, 3]) if not any(e['strategy'] == 'QueryInstanceQUIRE' for e in exps) else 2,
                'neg': rng.random() < 0.3, 'exps': exps, 'seed': rng.randrange(1 << 30),
                'params': W.gen_params(rng, line_gap=rng.choice([0, 3, 6, 10, 30]))}

    def shrink(self, p):
        if len(p['exps']) > 1:
            for i in range(2):
                q = copy.deepcopy(p)
                del q['exps'][i]
                yield q
        for i, e in enumerate(p['exps']):
            for j in range(1, len(e['runs'])):
                q = copy.deepcopy(p)
                del q['exps'][i]['runs'][j]
                yield q
            for j, r in enumerate(e['runs']):
                if r['folds'] > 1:
                    q = copy.deepcopy(p)
                    q['exps'][i]['runs'][j]['folds'] = r['folds'] - 1
                    yield q
            if e['batch'] > 1:
                q = copy.deepcopy(p)
                q['exps'][i]['batch'] = 1
                yield q

    def execute(self, plan, ctx):
        rng = random.Random(plan['seed'])
        X, y = T.blobs(rng, plan['n'], plan['k'])
        y0 = y
        X = np.round(X * 8)                      # sums are exact in any order
        if plan['neg']:
            y = np.where(y == 0, -1, y)
        model = T.ToyModel()
        done = []

        def body(ei, sim):
            e = plan['exps'][ei]
            al = split = metric = None
            root = os.path.join(ctx.root, 'e%d' % ei)
            for r in e['runs']:
                new = None
                if r['split'] in ('init', 'given'):
                    new = T.make_split(random.Random(r['seed']), plan['n'], r['folds'], r['nl'], y0)
                    plain = copy.deepcopy(new)
                    if e['form'] == 'ndarray':
                        new = tuple([np.array(v) for v in s] for s in new)
                    elif e['form'] == 'coll':
                        new = new[:2] + tuple([IndexCollection(v) for v in s] for s in new[2:])
                if al is None:
                    kw = dict(zip(('train_idx', 'test_idx', 'label_idx', 'unlabel_idx'), new)) if r['split'] == 'init' else {}
                    al = AlExperiment(X, y, model=model, stopping_criteria=e['stop'][0], stopping_value=e['stop'][1],
                                      batch_size=e['batch'], **kw)
                if r['split'] == 'given':
                    al.set_data_split(*new)
                if r['split'] == 'split_AL':
                    with S.quiet():
                        plain = al.split_AL(test_ratio=0.3, initial_label_rate=0.3, split_count=r['folds'], all_class=True)
                    plain = tuple([[int(i) for i in v] for v in s] for s in plain)
                if r['split']:
                    split = plain
                    if metric is None:
                        if e['strategy'] == 'custom':
                            al.set_query_strategy(T.ToyStrategy, salt=e['salt'])
                        elif e['strategy'] == 'QueryInstanceUncertainty':
                            al.set_query_strategy(e['strategy'], measure=e['measure'])
                        else:
                            al.set_query_strategy(e['strategy'])
                if r['metric']:
                    metric = r['metric']
                    al.set_performance_metric(metric)
                if r['mode'] == 'par':
                    al.start_query(multi_thread=True, max_thread=r['max_thread'], refresh_interval=r['refresh'], saving_path=root)
                else:
                    al.start_query(multi_thread=False, verbose=False, **({'saving_path': root} if r['saving'] else {}))
                with S.quiet():
                    done.append((ei, r, split, metric, [W.canon_io(x) for x in al.get_experiment_result()]))

        def main(sim):
            np.random.seed(plan['seed'] & 0xffffffff)
            random.seed(plan['seed'])
            for ei in range(len(plan['exps'])):
                os.makedirs(os.path.join(ctx.root, 'e%d' % ei))
            cwd = os.getcwd()
            os.chdir(ctx.root)
            errs = []

            def guarded(ei):
                try:
                    body(ei, sim)
                except S.SimAbort:
                    raise
                except Exception as x:
                    errs.append('experiment %d raised %s: %s' % (ei, type(x).__name__, str(x)[:200]))
            try:
                ts = [threading.Thread(target=guarded, args=(i,), name='program-%d' % i) for i in range(1, len(plan['exps']))]
                for t in ts:
                    t.start()
                guarded(0)
                for t in ts:
                    t.join()
            finally:
                os.chdir(cwd)
            return errs

        errs, sim = ctx.run('main', S.Params(**plan['params']), main, root=ctx.root)
        for x in errs:
            ctx.violate('error', x)
        for x in sim.thread_errors:
            ctx.violate('fold-error', 'a fold raised: %s' % (x,))
        if ctx.violations:
            return
        for ei, r, split, metric, res in done:
            self.judge(ctx, plan, ei, r, split, metric, res, X, y)
            if ctx.violations:
                return
        ctx.trivial = len(done) == 1 and len(done[0][4]) == 1

    def judge(self, ctx, plan, ei, run, split, metric, res, X, y):
        e = plan['exps'][ei]
        tag = 'experiment %d (%s), %s run' % (ei, e['strategy'], run['mode'])
        if len(res) != len(split[0]):
            ctx.violate('folds', '%s: %d results for %d folds' % (tag, len(res), len(split[0])))
            return
        b = e['batch'] if e['strategy'] != 'QueryInstanceQUIRE' else 1       # selects one instance, as it says
        sc, sv = e['stop']
        for i, r in enumerate(res):
            who = '%s, fold %d' % (tag, i)
            train, test, L, U = ([int(v) for v in s[i]] for s in split)
            for key, want in (('round', i), ('train', W.canon(train)), ('test', W.canon(test)), ('L0', W.canon_items(L)),
                              ('U0', W.canon_items(U))):
                if r[key] != want:
                    ctx.violate('start', '%s: its %s is %s instead of %s' % (who, key, W.short(r[key]), W.short(want)))
                    return
            n = len(U)

            def perf(labeled):
                m = T.ToyModel().fit(X[labeled], y[labeled])
                acc = float(np.mean(m.predict(X[test]) == y[test]))
                return m, acc if metric == 'accuracy_score' else 1 - acc
            m, p = perf(sorted(L))
            if abs(float(r['initial_point']) - p) > 1e-9:
                ctx.violate('initial', '%s: initial point %s instead of %s' % (who, r['initial_point'], p))
                return
            step = 0
            for st in r['states']:
                d = dict(st[0]) if isinstance(st[0], tuple) and isinstance(st[0][0], tuple) else dict(st)
                got = self.items(d['select_index'])
                step += 1
                here = '%s, query %d' % (who, step)
                if len(set(got)) != len(got) or not set(got) <= set(U) or len(got) != min(b, len(U)):
                    ctx.violate('choice', '%s: %s is no choice of %d from the unlabeled %s' % (here, got, b, sorted(U)))
                    return
                if e['strategy'] == 'custom':
                    Ls = sorted(L)
                    want = sorted(U, key=lambda j: (zlib.crc32(repr((e['salt'], Ls, j)).encode()), j))[:b]
                    if got != want:
                        ctx.violate('choice', '%s: %s instead of the strategy\'s choice %s' % (here, got, want))
                        return
                elif e['strategy'] == 'QueryInstanceUncertainty':
                    order = sorted(U)
                    sc_ = {j: best(q, e['measure']) for j, q in zip(order, m.predict_proba(X[order]))}
                    lo = min(sc_[j] for j in got)
                    hi = max([sc_[j] for j in order if j not in got] or [lo])
                    if hi > lo + 1e-7:
                        ctx.violate('choice', '%s: %s is not the most uncertain (%s) choice for the model of the labeled set %s' % (
                            here, got, e['measure'], sorted(L)))
                        return
                L, U = L + got, [j for j in U if j not in got]
                m, p = perf(sorted(L))
                if abs(float(self.number(d['performance'])) - p) > 1e-9:
                    ctx.violate('performance', '%s: recorded %s, the model of the labeled set gives %s' % (here, d['performance'], p))
                    return
            most = -(-n // b)
            if sc is None:
                exp = most
            elif sc == 'num_of_queries':
                exp = min(int(sv), most)
            else:
                exp = 0
                while exp < most and min(exp * b, n) / n < sv:
                    exp += 1
            if step != exp:
                ctx.violate('length', '%s: %d queries instead of %d' % (who, step, exp))
                return
            if (r['L'], r['U']) != (W.canon_items(L), W.canon_items(U)):
                ctx.violate('workspace', '%s: the final workspace is %s / %s instead of %s / %s' % (
                    who, W.short(r['L']), W.short(r['U']), sorted(L), sorted(U)))
                return
            ctx.probe('folds_checked')

    def items(self, v):
        if isinstance(v, (tuple, list)):
            v = v[1:] if v and isinstance(v[0], str) else v
            out = []
            for x in v:
                out += self.items(x)
            return out
        return [int(v)]

    def number(self, v):
        while isinstance(v, (tuple, list)):
            v = v[-1]
        return v


CHECK = C29
