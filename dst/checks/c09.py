"""C09: stopping criteria fire exactly when their condition first holds."""
import copy
import os
import pickle
import threading
import time

import numpy as np

from alipy.experiment import StateIO, State
from alipy.experiment.stopping_criteria import StoppingCriteria

from .. import sim as S
from .. import work as W
from ..runner import Check


class Watch(object):
    """A criterion and its reference."""

    def __init__(self, ctx, sim, kind, value):
        self.ctx, self.sim, self.kind, self.value = ctx, sim, kind, value
        self.lo = sim.now
        self.c = StoppingCriteria(kind, value)
        self.hi = sim.now
        self.fresh()
        self.hist = []

    def fresh(self):
        self.n, self.cost, self.frac, self.left = 0, 0.0, 0.0, None

    def update(self, io, obs):
        self.c.update_information(io)
        self.n, self.cost, self.frac, self.left = obs

    def reset(self):
        self.lo = self.sim.now
        self.c.reset()
        self.hi = self.sim.now
        self.fresh()

    def check(self, what):
        a = self.sim.now
        got = self.c.is_stop()
        b = self.sim.now
        if not isinstance(got, (bool, np.bool_)):
            self.ctx.violate('answer', 'is_stop() returned %r' % (got,))
            return
        got = bool(got)
        if self.left == 0:
            lo = hi = True
        elif self.kind == 'num_of_queries':
            lo = hi = self.n >= int(self.value)
        elif self.kind == 'cost_limit':
            lo = hi = self.cost >= float(self.value)
        elif self.kind == 'percent_of_unlabel':
            lo = hi = self.frac >= float(self.value)
        elif self.kind == 'time_limit':
            lo = a - self.hi >= float(self.value)        # certainly over
            hi = b - self.lo >= float(self.value)        # possibly over
        else:
            lo = hi = False
        if self.kind == 'time_limit' and self.left != 0:
            if got:
                self.ctx.probe('time_stops')
        if got and not hi:
            self.ctx.violate('early', '%s=%s stops too early (%s): queries=%d cost=%s fraction=%s left=%s elapsed=%.3f'
                             % (self.kind, self.value, what, self.n, self.cost, self.frac, self.left, b - self.lo))
        if lo and not got:
            self.ctx.violate('late', '%s=%s does not stop (%s): queries=%d cost=%s fraction=%s left=%s elapsed=%.3f'
                             % (self.kind, self.value, what, self.n, self.cost, self.frac, self.left, a - self.hi))
        if got:
            self.ctx.probe('stops_%s' % self.kind)


class C09(Check):
    id = 'C09'
    title = 'stopping criteria'
    rule = ('A run = 1-3 folds in their own threads, each watched by 1-4 criteria (created, deep-copied or unpickled) over a '
            'seeded history of queries, rollbacks, reloads, pauses and resets under a seeded scheduler, a virtual clock and '
            'wall-clock jumps. Non-trivial: at least one criterion reported stop and one did not.')
    components = {'real': ['alipy.experiment.StoppingCriteria', 'alipy.experiment.StateIO / State', 'threading.Thread'],
                  'stub': ['clocks', 'scheduler', 'file writes']}
    assumptions = ['the monotonic clock is the one time.perf_counter / time.monotonic read; a reading takes one tick']
    quick_s = 30

    def gen_plan(self, rng, tier):
        nf = rng.choice([1, 1, 2, 3])
        folds = []
        for i in range(nf):
            f = W.gen_fold(rng, i, kinds=('list', 'ndarray', 'coll', 'multi'))
            crit = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                k = rng.choice([None, 'num_of_queries', 'cost_limit', 'percent_of_unlabel', 'time_limit'])
                v = None
                if k == 'num_of_queries':
                    v = rng.choice([0, 1, 2, 3, 4, 6])
                elif k == 'cost_limit':
                    v = rng.choice([0.5, 1, 2.5, 4, 7, 12])
                elif k == 'percent_of_unlabel':
                    v = rng.choice([0.1, 0.2, 0.3, 0.5, 0.6, 0.7, 0.9, 1, 1.0, 0.25, 0.0])
                elif k == 'time_limit':
                    v = rng.choice([0.5, 2.0, 5, 30.0, 100, 1000.0])
                crit.append([k, v, rng.choice(['raw', 'np', 'np']) if v is not None else 'raw',
                             rng.choice(['new', 'new', 'deepcopy', 'pickle'])])
            ops = []
            for _ in range(rng.randrange(4, 26)):
                r = rng.random()
                if r < 0.42:
                    q = W.gen_query(rng)
                    if q['cost'] == 'arr':
                        q['cost'] = 'list'
                    ops.append(['add', q])
                elif r < 0.50:
                    ops.append(['back', rng.randrange(100)])
                elif r < 0.54:
                    ops.append(['pop'])
                elif r < 0.60:
                    ops.append(['reload'])
                elif r < 0.76:
                    ops.append(['sleep', rng.choice([0.01, 0.3, 1.0, 4.0, 30.0, 400.0])])
                elif r < 0.82:
                    ops.append(['reset', rng.randrange(4)])
                elif r < 0.90:
                    ops.append(['skip-update'])
                else:
                    ops.append(['look'])
            folds.append({'fold': f, 'crit': crit, 'ops': ops})
        return {'folds': folds, 'params': W.gen_params(rng, jump_p=rng.choice([0, 0.1, 0.4]))}

    def shrink(self, p):
        if len(p['folds']) > 1:
            for i in range(len(p['folds'])):
                q = copy.deepcopy(p)
                del q['folds'][i]
                yield q
        for i, f in enumerate(p['folds']):
            for j in range(len(f['crit'])):
                if len(f['crit']) > 1:
                    q = copy.deepcopy(p)
                    del q['folds'][i]['crit'][j]
                    yield q
            for size in (len(f['ops']) // 2, 1):
                for j in range(0, len(f['ops']), max(size, 1)):
                    q = copy.deepcopy(p)
                    del q['folds'][i]['ops'][j:j + max(size, 1)]
                    yield q

    def execute(self, plan, ctx):
        def body(fi, sim):
            fp = plan['folds'][fi]
            model = W.FoldModel(fp['fold'])
            path = os.path.join(ctx.root, 'fold_%d.pkl' % fi)
            io = W.make_io(fp['fold'], saving_path=path, verbose=False)
            ws = []
            for kind, v, form, how in fp['crit']:
                if form == 'np' and v is not None:
                    v = np.float64(v) if isinstance(v, float) else np.int64(v)
                w = Watch(ctx, sim, kind, v)
                if how == 'deepcopy':
                    w.c = copy.deepcopy(w.c)
                elif how == 'pickle':
                    w.c = pickle.loads(pickle.dumps(w.c))
                ws.append(w)
            n0 = len(model.U0)
            for w in ws:
                w.check('before any query')
            upd = True
            for op in fp['ops']:
                if op[0] == 'add':
                    with S.quiet():
                        r = W.build_query(op[1], model)
                    if r is not None:
                        io.add_state(r[0])
                        model.states.append(r[1])
                elif op[0] == 'back':
                    it = op[1] % (len(model.states) + 1)
                    io.recover_workspace(it)
                    del model.states[it:]
                elif op[0] == 'pop':
                    if model.states:
                        io.pop()
                        model.states.pop()
                elif op[0] == 'reload':
                    io.save()
                    io = StateIO.load(path)
                elif op[0] == 'sleep':
                    time.sleep(op[1])
                elif op[0] == 'reset':
                    w = ws[op[1] % len(ws)]
                    w.reset()
                    w.check('right after reset')
                    continue
                if op[0] == 'skip-update':
                    upd = not upd
                if op[0] in ('add', 'back', 'pop', 'reload') and upd or op[0] == 'look':
                    with S.quiet():
                        u = len(model.unlabeled())
                        obs = (len(model.states), float(sum(s['cost'] for s in model.states)), (n0 - u) / n0, u)
                    for w in ws:
                        w.update(io, obs)
                for w in ws:
                    w.check('after ' + op[0])

        def main(sim):
            ths = [threading.Thread(target=body, args=(i, sim)) for i in range(1, len(plan['folds']))]
            for t in ths:
                t.start()
            body(0, sim)
            for t in ths:
                t.join()

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        for e in sim.thread_errors:
            ctx.violate('error', 'an operation raised: %s' % (e,))
        ctx.trivial = not any(k.startswith('stops_') for k in ctx.probes)


CHECK = C09
