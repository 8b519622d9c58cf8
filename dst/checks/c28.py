"""C28: a step of an experiment that fails has no effect on the later ones."""
import copy
import os
import random

import numpy as np

from alipy.experiment import AlExperiment

from .. import sim as S
from .. import toys as T
from .. import work as W
from ..runner import Check
from .c11 import Breaker, Broken

DISK = ['enospc', 'eio', 'open_eio', 'open_enospc', 'close_eio', 'rename_eio', 'short', 'full']
GOOD = ['QueryInstanceUncertainty', 'custom', 'custom', 'custom', 'QueryInstanceGraphDensity', 'QueryInstanceQUIRE']


class Unbuildable(object):
    def __init__(self, X, y, **kw):
        raise Broken('cannot be built')


class C28(Check):
    id = 'C28'
    title = 'failing steps of an experiment have no effect'
    rule = ('A run = a seeded history of steps on one AlExperiment: splitting, giving a split, setting strategy and metric, running '
            '(both modes) - some of them failing: labels that cannot be split, disk errors while a split or records are saved, '
            'strategies and metrics that do not exist or cannot be built, steps in the wrong order, user strategies that raise, '
            'interrupts. The same history without the steps that failed must give the same splits and results. Non-trivial: a '
            'step failed and a later run was completed.')
    components = {'real': ['alipy.experiment.AlExperiment', 'alipy.data_manipulate', 'StateIO', 'aceThreading', 'query strategies'],
                  'stub': ['scheduler', 'clocks', 'file writes', 'model and user strategy (deterministic)']}
    assumptions = ['a strategy is set successfully once only (the class says it need not be set again)']
    quick_s = 35

    def gen_plan(self, rng, tier):
        st = rng.choice(GOOD)
        early = rng.random() < 0.5
        ops = []

        def bad(setup):
            r = rng.random()
            if r < 0.25:
                return ['split', rng.randrange(1 << 30), rng.choice([1, 2, 3, 4]), 0.05, True, False]
            if r < 0.45:
                return ['split', rng.randrange(1 << 30), rng.choice([1, 2, 3, 4]), 0.4, rng.random() < 0.5, True]
            if r < 0.52:
                return ['given', rng.randrange(1 << 30), rng.choice([1, 2, 3, 4]), True]
            if r < 0.75:
                return ['strategy', rng.choice(['unbuildable', 'QueryInstanceNothing', 'QueryInstanceQBC?', 'QueryInstanceLAL?'] +
                                                ([] if setup else ['QueryInstanceQUIRE?', 'QueryInstanceGraphDensity?']))]
            if r < 0.82:
                return ['metric', 'nothing']
            return ['run', rng.choice(['seq', 'par']), rng.choice(['strategy', 'strategy', 'disk', 'limit']), rng.randrange(1, 7)]

        def some(setup):
            while rng.random() < 0.55:
                ops.append(bad(setup))
        some(False)
        first = ['given', rng.randrange(1 << 30), rng.choice([1, 2, 3]), False] if rng.random() < 0.5 else \
            ['split', rng.randrange(1 << 30), rng.choice([1, 2, 3]), 0.4, rng.random() < 0.5, False]
        steps = [first, ['strategy', st], ['metric', rng.choice(['accuracy_score', 'zero_one_loss'])]]
        if early and st not in ('QueryInstanceGraphDensity', 'QueryInstanceQUIRE'):
            rng.shuffle(steps)
        for s in steps:
            ops.append(s)
            some(ops.count(first) > 0)
        for _ in range(rng.choice([1, 1, 2, 3])):
            some(True)
            if rng.random() < 0.5:
                if rng.random() < 0.6:
                    ops.append(['run', rng.choice(['seq', 'seq', 'par']), 'strategy', rng.randrange(2, 7)])
                ops.append(rng.choice([['split', rng.randrange(1 << 30), rng.choice([1, 2, 3]), 0.4, rng.random() < 0.5, False],
                                       ['given', rng.randrange(1 << 30), rng.choice([1, 2, 3]), False]]))
                some(True)
            ops.append(['run', rng.choice(['seq', 'par']), None, 0])
        return {'n': rng.randrange(20, 26), 'k': 2, 'seed': rng.randrange(1 << 30), 'ops': ops, 'batch': rng.choice([1, 1, 2]),
                'stop': rng.choice([['num_of_queries', 2], ['num_of_queries', 3], ['percent_of_unlabel', 0.3]]),
                'limit': rng.choice([None, 1, 2]), 'saving': rng.random() < 0.7,
                # PyPy chooses the order of the attributes of an object, and with it the size of its pickle
                'params': W.gen_params(rng, line_gap=rng.choice([0, 0, 0, 100]), max_steps=400000, log_sizes=False,
                                       bufsize=rng.choice([1, 65536]))}

    def shrink(self, p):
        for i in range(len(p['ops'])):
            q = copy.deepcopy(p)
            del q['ops'][i]
            yield q

    def step(self, plan, al, X, y, op, root, sim):
        if op[0] == 'split':
            np.random.seed(op[1] & 0xffffffff)
            return W.canon(al.split_AL(test_ratio=0.3, initial_label_rate=op[3], split_count=op[2], all_class=op[4]))
        if op[0] == 'given':
            t = T.make_split(random.Random(op[1]), plan['n'], op[2], 4, y)
            if op[3]:
                t = (t[0], t[1], t[2], t[3] + t[3])
            al.set_data_split(*t)
            return None
        if op[0] == 'strategy':
            nm = op[1].rstrip('?')
            if nm == 'custom':
                al.set_query_strategy(T.ToyStrategy, salt=3)
            elif nm == 'unbuildable':
                al.set_query_strategy(Unbuildable, salt=4)
            elif op[1] == 'QueryInstanceQBC?':
                al.set_query_strategy('QueryInstanceQBC', disagreement='nothing')
            elif op[1] == 'QueryInstanceLAL?':
                al.set_query_strategy('QueryInstanceLAL', mode='nothing', data_path=root)
            elif op[1] == 'QueryInstanceQUIRE':
                al.set_query_strategy(nm, lambda_=0.7)
            else:
                al.set_query_strategy(nm)
            return None
        if op[0] == 'metric':
            al.set_performance_metric(op[1])
            return None
        kw = {}
        if op[1] == 'par':
            kw = {'max_thread': plan['limit'] if op[2] != 'limit' else 'many', 'refresh_interval': 1000.0, 'saving_path': root}
        else:
            kw = {'verbose': False if op[2] != 'limit' else 'no'}
            if plan['saving'] or op[2] == 'disk':
                kw['saving_path'] = root
        T.HOOK = Breaker(op[3], KeyboardInterrupt if op[3] % 2 and op[1] == 'seq' else Broken) if op[2] == 'strategy' else None
        try:
            al.start_query(multi_thread=op[1] == 'par', **kw)
        finally:
            T.HOOK = None
        return [W.canon_io(r) for r in al.get_experiment_result()]

    def history(self, ctx, plan, label, ops, params, expected=None):
        """[(op, outcome)] of the steps; with disk errors where the plan wants them."""
        out = []
        rng = random.Random(plan['seed'])
        X, y = T.blobs(rng, plan['n'], plan['k'])
        home = os.path.join(ctx.root, label)
        os.makedirs(home)
        stormy = {k: 0.25 for k in DISK[:5]}

        def main(sim):
            me = sim.me()
            sim.disk.immune.add(me.id)
            al = AlExperiment(X, y, model=T.ToyModel(), stopping_criteria=plan['stop'][0], stopping_value=plan['stop'][1],
                              batch_size=plan['batch'])
            cwd = os.getcwd()
            os.chdir(home)                  # an experiment saves its split into the working directory
            try:
                for op in ops:
                    faulty = (op[0] == 'split' and op[5]) or (op[0] == 'run' and op[2] == 'disk')
                    if faulty:
                        sim.params.fault_p, sim.params.max_faults = dict(stormy), 100000
                        sim.disk.immune.discard(me.id)
                    n, first = len(sim.thread_errors), len(sim.tasks)
                    try:
                        r = ('returned', self.step(plan, al, X, y, op, home, sim))
                    except S.SimAbort:
                        raise
                    except (Exception, KeyboardInterrupt) as e:
                        r = ('raised', '%s: %s' % (type(e).__name__, str(e)[:120]))
                    if faulty:
                        sim.params.fault_p = {}
                        sim.disk.full = False
                        sim.disk.immune.add(me.id)
                    # folds of a run that failed before may still be at work
                    mine = [e for e, t in zip(sim.thread_errors[n:], sim.error_tasks[n:]) if t is None or t >= first]
                    if mine:
                        r = ('raised', 'in a fold: %s' % (mine[0],))
                    out.append((op, r))
            finally:
                os.chdir(cwd)

        ctx.run(label, S.Params(**params), main, root=ctx.root)
        return out

    def execute(self, plan, ctx):
        got = self.history(ctx, plan, 'main', plan['ops'], plan['params'])
        if ctx.violations:
            return
        # a run that was to be broken off says nothing, even if it got through
        keep = [(op, r) for op, r in got if (op[0] == 'run' and not op[2]) or (op[0] != 'run' and r[0] == 'returned')]
        ref = self.history(ctx, plan, 'ref', [op for op, _ in keep], dict(plan['params'], line_gap=0))
        if ctx.violations:
            return
        for (op, a), (_, b) in zip(keep, ref):
            if a[0] == b[0] == 'raised':
                continue                        # too early a run, for instance
            if a != b:
                ctx.violate('effect', 'the failed steps %s change what a later step (%s) gives: %s' % (
                    self.failed(got), op[:3], W.short('%s != %s' % (a, b), 300)))
                return
        bad = [i for i, (op, r) in enumerate(got) if r[0] == 'raised']
        for i in bad:
            ctx.probe('failed:' + got[i][0][0])
        runs = [i for i, (op, r) in enumerate(got) if op[0] == 'run' and not op[2] and r[0] == 'returned']
        ctx.trivial = not (bad and runs and bad[0] < runs[-1])

    def failed(self, got):
        return W.short([op[:3] for op, r in got if r[0] == 'raised'], 200)


CHECK = C28
