"""C25: a killed multi-threaded experiment can be recovered and completed to the same result."""
import copy
import os
import random

from alipy.experiment import AlExperiment, StateIO
from alipy.index import IndexCollection

from .. import par as P
from .. import sim as S
from .. import toys as T
from .. import work as W
from ..runner import Check
from .c10 import C10

# the choices of these depend on the earlier choices of the same object
MEMORY = ('QueryInstanceGraphDensity',)
REAL_SAVE = StateIO.save


class Watch(object):
    """What the saved records of one run were, and which folds had begun."""

    def __init__(self, sim, st, away=None):
        self.sim = sim
        self.away = away
        self.acked = dict(st.get('acked', {}))
        self.pend = {}
        self.begun = bool(st.get('begun'))
        self.queries = 0
        self.returned = False

    def saved(self, saver, *a, **kw):
        with S.quiet():
            self.pend[saver.round] = P.light(saver)
        REAL_SAVE(saver, *a, **kw)
        with S.quiet():
            self.acked[saver.round] = self.pend.pop(saver.round)
        self.sim.disk.crash_point('after-ack')

    def image_state(self):
        return {'acked': dict(self.acked), 'pend': dict(self.pend), 'begun': self.begun, 'returned': self.returned}

    # what the model and the strategy tell
    def fit(self, *a):
        sim = S.SIM
        if sim is self.sim and sim.me() is not None and not sim.suspended:
            self.begun = True
            if self.away:
                self.away.__exit__()
            sim.disk.crash_point('fit')

    def select(self, *a):
        with S.quiet():
            self.queries += 1

    def fitted(self, *a):
        pass
    selected = fitted


class C25(Check):
    id = 'C25'
    title = 'recovery of killed multi-threaded experiments'
    rule = ('A run = one experiment configuration (2-4 folds, deterministic strategy of ALiPy or user-defined, deterministic '
            'model, seeded stopping rule) run multi-threaded under a seeded scheduler in a fresh or used directory and killed '
            'at seeded points (file operations, inside writes, model training, right after a checkpoint was acknowledged); the '
            'directory is restored to that instant, the run recovered from its files and completed under another schedule, '
            'which may be killed again; sometimes a read error strikes the first attempt to recover. Oracle: an uninterrupted '
            'sequential experiment. Non-trivial: at least one kill hit a run that had begun, and was recovered to completion.')
    components = {'real': ['alipy.experiment.AlExperiment', 'aceThreading', 'query strategies of alipy', 'StateIO',
                           'StoppingCriteria', 'metrics', 'threading.Thread', 'pickle'],
                  'stub': ['model (deterministic nearest-centroid with yield points)', 'user-defined strategy', 'scheduler',
                           'clocks', 'file writes']}
    assumptions = ['numpy and scikit-learn calls are atomic between yield points', P.ASSUMPTIONS[0],
                   'crash model = process kill: data handed to the operating system survives, user-space buffers do not']
    quick_s = 40

    def gen_plan(self, rng, tier):
        p = C10.gen_plan(C10(), rng, tier)
        p['warm'] = False
        if rng.random() < 0.5:
            p['strategy'] = rng.choice(['custom', 'QueryInstanceUncertainty'])
        p['folds'] = rng.choice([1, 2, 2, 3, 4])
        p['prior'] = rng.choice([None, None, None, 1, 3, 6])
        p['read'] = rng.choice([0, 0, 0, 0, 1, 2, 3])
        p['depth'] = rng.choice([1, 1, 2, 3])
        p['images'] = rng.choice([1, 2, 3])
        p['params'].update({'crash_p': rng.choice([0.02, 0.05, 0.15]), 'max_crash': 30, 'max_steps': 400000})
        p['rel'] = rng.random() < 0.25
        for k in ('order', 'shared'):
            p.pop(k)
        return p

    def shrink(self, p):
        for key, val in (('folds', 1), ('folds', 2), ('batch', 1), ('prior', None), ('depth', 1), ('read', 0),
                         ('stop', ['num_of_queries', 1]), ('stop', ['num_of_queries', 2])):
            if p[key] != val:
                q = copy.deepcopy(p)
                q[key] = val
                yield q

    def execute(self, plan, ctx):
        rng = random.Random(plan['seed'])
        X, y = T.blobs(rng, plan['n'], plan['k'])
        split = T.make_split(rng, plan['n'], plan['folds'], plan['nl'], y)

        def make(stop):
            s = copy.deepcopy(split)
            if plan['form'] == 'coll':
                s = s[:2] + tuple([IndexCollection(r) for r in q] for q in s[2:])
            al = AlExperiment(X, y, model=T.ToyModel(), stopping_criteria=stop[0], stopping_value=stop[1],
                              batch_size=plan['batch'], train_idx=s[0], test_idx=s[1], label_idx=s[2], unlabel_idx=s[3])
            if plan['strategy'] == 'custom':
                al.set_query_strategy(T.ToyStrategy, salt=plan['salt'])
            elif plan['strategy'] == 'QueryInstanceUncertainty':
                al.set_query_strategy(plan['strategy'], measure=plan['measure'])
            else:
                al.set_query_strategy(plan['strategy'])
            al.set_performance_metric(plan['metric'])
            return al

        with S.quiet():
            al = make(plan['stop'])
            al.start_query(multi_thread=False, verbose=False)
            ref = [W.canon_io(r) for r in al.get_experiment_result()]
            fresh = [P.light(StateIO(i, split[0][i], split[1][i], IndexCollection(split[2][i]),
                                     IndexCollection(split[3][i]), verbose=False)) for i in range(plan['folds'])]

        def parallel(stop):
            def go(sim):
                al = make(stop)
                rel = W.Relative(ctx, plan['rel']).__enter__()
                al.start_query(multi_thread=True, max_thread=plan['max_thread'], refresh_interval=plan['refresh'],
                               saving_path=rel.path(ctx.root))
                return al.get_experiment_result()
            return go

        ctx.trivial = True
        if plan['prior']:
            par = dict(plan['params'])
            par.update({'crash_p': 0, 'line_gap': 0})
            self.one(ctx, plan, 'prior', par, parallel(['num_of_queries', plan['prior']]), {}, None)
            if ctx.violations:
                return
        pick = ctx.rng('choose')
        images = self.one(ctx, plan, 'main', plan['params'], parallel(plan['stop']), {}, ref)
        path = os.path.join(ctx.root, P.STATE_FILE)
        for a, img in enumerate(self.choose(pick, images, plan['images'])):
            for depth in range(plan['depth']):
                if ctx.violations:
                    return
                st = img['state']
                S.restore_dir(ctx.root, img['files'])
                resume = {}
                for i in range(plan['folds']):
                    resume[i] = [st['acked'].get(i, fresh[i])] + ([st['pend'][i]] if i in st['pend'] else [])
                last = depth == plan['depth'] - 1
                params = dict(plan['params'])
                params.update({'fault_p': P.READ_FAULTS[plan['read']], 'max_faults': 3})
                if last:
                    params['crash_p'] = 0

                def again(sim):
                    ace = P.recover(ctx, sim, path, resume)
                    if ctx.violations:
                        return []
                    ace.start_all_threads()
                    return ace.get_results()
                images2 = self.one(ctx, plan, 'r%d.%d' % (a, depth), params, again, st, ref)
                ctx.trivial = False
                ctx.probe('recoveries')
                ctx.probe('kill_' + img['tag'])
                nxt = self.choose(pick, images2, 1)
                if last or not nxt:
                    break
                img = nxt[0]

    @staticmethod
    def choose(rng, imgs, k):
        imgs = [i for i in imgs if i['state'] and i['state']['begun']]
        rng.shuffle(imgs)
        tags = set()
        out = [i for i in imgs if not (i['tag'] in tags or tags.add(i['tag']))]
        return (out + [i for i in imgs if i not in out])[:k]

    def one(self, ctx, plan, label, params, go, st, ref):
        acked = st.get('acked', {})

        def main(sim):
            w = Watch(sim, st, W.Relative(ctx, plan['rel']))
            sim.disk.image_state = w.image_state
            T.HOOK = w
            StateIO.save = lambda saver, *a, **kw: w.saved(saver, *a, **kw)
            try:
                res = go(sim)
                w.returned = True
            except S.SimAbort:
                raise
            except Exception as e:
                ctx.violate('recover-failed' if st else 'error', '%s raised %s: %s' % (
                    'recovering and completing the experiment' if st else 'the experiment', type(e).__name__, str(e)[:200]))
                return
            finally:
                T.HOOK = None
                StateIO.save = REAL_SAVE
            if ref is None or ctx.violations:
                return
            with S.quiet():
                if len(res) != len(ref):
                    ctx.violate('result', '%d results for %d folds' % (len(res), len(ref)))
                for i, r in enumerate(res):
                    got = W.canon_io(r)
                    if plan['strategy'] in MEMORY:
                        # such a strategy starts anew after a kill: only the recorded queries are determined
                        k = len(acked[i][2]) if i in acked else 0
                        same = len(got['states']) == len(ref[i]['states']) and \
                            all(got[key] == ref[i][key] for key in ('initial_point', 'train', 'test', 'L0', 'U0', 'round')) and \
                            (st or got == ref[i]) and (i not in acked or tuple(got['states'][:k]) == tuple(acked[i][2]))
                    else:
                        same = got == ref[i]
                    if not same:
                        ctx.violate('result', '%s: fold %d differs from the uninterrupted experiment: %s' % (
                            'recovered run' if st else 'first run', i, W.diff(ref[i], got)))

        _, sim = ctx.run(label, S.Params(**params), main)
        for e in sim.thread_errors:
            ctx.violate('fold-error', 'a fold raised: %s' % (e,))
        return sim.disk.images


CHECK = C25
