"""Parallel-fold experiments: fold functions, plans, reference, observation."""
import os
import threading
import time
import zlib

import numpy as np

from alipy.experiment import State, StateIO
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.utils.multi_thread import aceThreading

from . import sim as S
from . import work as W

CUR = None            # the hooks of the run in progress (fold functions must be picklable)

STATE_FILE = 'multi_thread_state.pkl'


class FoldFailure(Exception):
    """Raised by a fold function because the plan says so."""


class Null(object):
    """Hooks of the sequential reference run."""

    def begin(self, *a):
        pass

    end = added = adding = rolled = rolling = saving = saved = save_failed = sleep = hold = point = begin


def crc(*a):
    return zlib.crc32(repr(a).encode())


def _list(coll):
    return W.canon_items(coll)


def _raw(c):
    return c[1:] if isinstance(c, tuple) and c and c[0] == 'seq' else c


def perf_of(L, examples, labels, seed):
    xs = _list(L)
    rows = [(_raw(x)[0] if isinstance(x, tuple) else x) for x in xs]
    acc = float(np.sum(np.asarray(examples)[[r % len(examples) for r in rows]])) if rows else 0.0
    return (crc(seed, xs, round(acc, 6), float(np.sum(np.asarray(labels)))) % 1000) / 1000.0


def program(h, round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, gp):
    """A deterministic, resumable active-learning loop."""
    sp = gp['spec'][str(round)]
    seed = gp['seed']
    U, L = Ucollection, Lcollection
    if saver.initial_point is None and sp.get('ip', True):
        L0 = saver.get_workspace(iteration=0)[2]
        saver.set_initial_point(perf_of(L0, examples, labels, seed))
    h.sleep(sp['sleep'])
    h.hold(round, sp)
    rolled = set()
    fail = sp.get('fail')
    while True:
        k = len(saver)
        if fail is not None and fail <= k and sp.get('fail_when', 'pre') == 'pre':
            raise FoldFailure('fold %d at %d' % (round, k))
        if k >= sp['budget'] or len(U) == 0:
            break
        if k in sp.get('rollback', ()) and k not in rolled:
            rolled.add(k)
            pool = _list(U)
            x = _raw(pool[crc(seed, 'bogus', k) % len(pool)])
            h.adding(round, 0.777)
            saver.add_state(State(select_index=[x], performance=0.777))
            h.added(round)
            h.point(round)
            h.rolling(round, k)
            _, _, L, U = saver.recover_workspace(iteration=k)
            h.rolled(round, k)
        pool = _list(U)
        pick = []
        for j in range(sp['batch']):
            if not pool:
                break
            pick.append(_raw(pool.pop(crc(seed, round, k, j, len(pool), _list(L)) % len(pool))))
        h.point(round)
        L.update(pick)
        U.difference_update(pick)
        perf = perf_of(L, examples, labels, (seed, round))
        st = State(select_index=pick, performance=perf if sp['perf'] == 'f' else
                   (np.float64(perf) if sp['perf'] == 'np' else [perf, perf / 2]))
        if sp.get('cost'):
            st.add_element('cost', [float(sp['cost'])] * len(pick))
        if sp.get('payload'):
            st.add_element('payload', 'p%d' % k * sp['payload'])
        h.adding(round, perf)
        saver.add_state(st)
        h.added(round)
        if fail is not None and fail <= k and sp.get('fail_when') == 'added':
            raise FoldFailure('fold %d at %d' % (round, k))
        if sp['save'] == 'each' or (sp['save'] == 'some' and k % 2 == 0):
            _save(h, round, saver, sp)
        h.point(round)
        h.sleep(sp['sleep'])
    # a fold need not save at its end
    if not sp.get('nosave') and (sp['save'] != 'each' or sp.get('final', True) or len(saver) == 0):
        _save(h, round, saver, sp)


def _save(h, round, saver, sp):
    h.saving(round, saver)
    try:
        saver.save()
    except OSError:
        h.save_failed(round)
        if sp.get('tolerant'):
            return
        raise
    h.saved(round)


def fold_body(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    h = CUR
    h.begin(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters)
    ok = False
    try:
        program(h, round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters)
        ok = True
    finally:
        h.end(round, ok, saver)


def light(saver):
    """Cheap immutable form of a record."""
    return (saver.round, W.canon(saver.initial_point),
            tuple(W.canon_state(saver[i]) for i in range(len(saver))))


# --------------------------------------------------------------------------- plans

def gen_spec(rng, nfolds, sleepy=0.5, payload=0.2):
    spec = {}
    for i in range(nfolds):
        budget = rng.choice([0, 1, 2, 3, 3, 4, 5, 6])
        spec[str(i)] = {
            'budget': budget, 'batch': rng.choice([1, 1, 1, 2, 3]), 'save': rng.choice(['each', 'each', 'some', 'end']),
            'sleep': rng.choice([0, 0, 0.01, 0.5, 3.0, 40.0]) if rng.random() < sleepy else 0,
            'rollback': [rng.randrange(6)] if rng.random() < 0.15 else [],
            'perf': rng.choice(['f', 'f', 'f', 'np']), 'cost': rng.choice([0, 0, 1, 2.5]),
            'payload': rng.choice([20, 400, 3000]) if rng.random() < payload else 0, 'ip': rng.random() < 0.9,
            'final': rng.random() < 0.9, 'nosave': rng.random() < 0.12}
    return spec


def gen_plan(rng, nmax=5, crash=False, **over):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    n = min(n, nmax)
    kind = rng.choice(['list', 'list', 'ndarray', 'coll', 'multi', 'multilist'])
    folds = []
    for i in range(n):
        if kind in ('multi', 'multilist'):
            f = W.gen_fold(rng, i, kinds=('multi',))
        else:
            f = W.gen_fold(rng, i, kinds=(kind,))
        folds.append(f)
    if kind in ('multi', 'multilist'):
        lab = rng.randrange(2, 5)
        for f in folds:
            f['labels'] = lab
    p = {'folds': folds, 'kind': kind, 'max_thread': rng.choice([None, 1, 1, 2, 2, 3, n, n + 2]),
         'refresh': rng.choice([0.0, 0.02, 1, 1, 30.0, 1e7]), 'spec': gen_spec(rng, n), 'seed': rng.randrange(1000),
         'bystanders': rng.choice([0, 0, 0, 1, 2, 4]), 'from_thread': rng.random() < 0.25,
         'ctor_func': rng.random() < 0.3, 'rel': rng.random() < 0.2,
         'params': W.gen_params(rng)}
    p.update(over)
    return p


def shrink_plan(p):
    import copy
    n = len(p['folds'])
    if n > 1:
        q = copy.deepcopy(p)
        q['folds'] = q['folds'][:-1]
        q['spec'].pop(str(n - 1), None)
        yield q
    for key, val in (('bystanders', 0), ('from_thread', False), ('prior', None), ('depth', 1)):
        if p.get(key) and p[key] != val:
            q = copy.deepcopy(p)
            q[key] = val
            yield q
    for i in range(n):
        sp = p['spec'].get(str(i))
        if not sp:
            continue
        for key, val in (('budget', sp['budget'] - 1), ('rollback', []), ('sleep', 0), ('payload', 0), ('batch', 1)):
            if sp.get(key) and sp[key] != val:
                q = copy.deepcopy(p)
                q['spec'][str(i)][key] = val
                yield q


def data_of(plan):
    n = 12
    ex = np.arange(n * 2, dtype=float).reshape(n, 2) / 7.0
    if plan['kind'] in ('multi', 'multilist'):
        lab = np.arange(n * plan['folds'][0]['labels']).reshape(n, -1) % 2
    else:
        lab = np.arange(n) % 3
    return ex, lab


def split_of(plan):
    tr, te, L, U = [], [], [], []
    for f in plan['folds']:
        if plan['kind'] == 'multilist':
            a, b, _, _ = W.fold_args(f)
            c, d = W.fold_sets(f)
            c, d = list(c), list(d)
        else:
            a, b, c, d = W.fold_args(f)
        tr.append(a)
        te.append(b)
        L.append(c)
        U.append(d)
    return tr, te, L, U


def ref_io(plan, i):
    tr, te, L, U = split_of(plan)
    if plan['kind'] == 'multilist':
        k = plan['folds'][i]['labels']
        L[i], U[i] = MultiLabelIndexCollection(L[i], k), MultiLabelIndexCollection(U[i], k)
    elif plan['kind'] in ('list', 'ndarray'):
        L[i], U[i] = IndexCollection(L[i]), IndexCollection(U[i])
    return StateIO(i, tr[i], te[i], L[i], U[i], verbose=False)


def reference(plan, spec=None, nofail=False):
    """Canonical records of calling the fold function once per fold, sequentially."""
    ex, lab = data_of(plan)
    spec = dict(spec or plan['spec'])
    if nofail:
        spec = without_failures(spec)
    out = []
    for i in range(len(plan['folds'])):
        io = ref_io(plan, i)
        tr, te, L, U = io.get_workspace()
        try:
            program(Null(), i, tr, te, U, L, io, ex, lab, {'spec': spec, 'seed': plan['seed']})
        except FoldFailure:
            pass
        out.append(W.canon_io(io))
    return out


def without_failures(spec):
    out = {}
    for k, v in spec.items():
        v = dict(v)
        v.pop('fail', None)
        out[k] = v
    return out


# --------------------------------------------------------------------------- observation

class Hooks(object):
    """Watches one parallel run from inside the fold functions."""

    def __init__(self, ctx, plan, sim, resume=None, acked=None):
        self.ctx = ctx
        self.plan = plan
        self.sim = sim
        self.n = len(plan['folds'])
        self.max_thread = plan['max_thread'] or self.n
        self.active = set()
        self.begun = {}
        self.ended = {}
        self.order = []
        self.pending_hold = []
        self.acked = dict(acked or {})
        self.pend = {}
        self.maybe = {}
        self.final = {}                 # the records of the folds whose function has returned
        self.resume = resume            # round -> expected light record at begin
        self.started = False
        self.tasks = {}
        self.count = {}
        self.overlaps = 0
        self.thread_done_opens = {}
        self.opens = 0
        self.ext = None
        self.isolate = True

    # -- called by the fold functions
    def begin(self, round, train_id, test_id, U, L, saver, examples, labels, gp):
        with S.quiet():
            ctx = self.ctx
            if not isinstance(round, int) or round < 0 or round >= self.n:
                ctx.violate('arguments', 'fold function called with round %r' % (round,))
            self.active.add(round)
            if len(self.active) > 1:
                self.overlaps += 1
            if len(self.active) > self.max_thread:
                ctx.violate('thread-limit', '%d fold functions run at the same time with max_thread=%d (folds %s)'
                            % (len(self.active), self.max_thread, sorted(self.active)))
            self.begun[round] = self.begun.get(round, 0) + 1
            self.order.append(round)
            if self.begun[round] > 1:
                ctx.violate('called-twice', 'the function of fold %d is called a second time in one run' % round)
            self.tasks[round] = self.sim.me()
            tr, te, L0, U0 = split_of(self.plan)
            if W.canon(train_id) != W.canon(tr[round]) or W.canon(test_id) != W.canon(te[round]):
                ctx.violate('arguments', 'fold %d got train/test indexes of something else' % round)
            if saver.round != round:
                ctx.violate('arguments', 'fold %d got the record of fold %s' % (round, saver.round))
            got = light(saver)
            if self.resume is not None:
                exp = self.resume.get(round)
                if exp is not None and got not in exp:
                    ctx.violate('resume', 'fold %d continues from a record that is neither its last acknowledged '
                                'nor its in-progress checkpoint: %d queries' % (round, len(saver)))
            elif len(saver) != 0:
                ctx.violate('arguments', 'fold %d starts with %d recorded queries' % (round, len(saver)))
            _, _, wl, wu = saver.get_workspace()
            if _list(wl) != _list(L) or _list(wu) != _list(U):
                ctx.violate('arguments', 'fold %d got index collections that differ from its workspace' % round)
            if self.resume is None:
                l0, u0 = W.fold_sets(self.plan['folds'][round])
                if _list(L) != sorted((W.canon(x) for x in l0), key=repr) or \
                        _list(U) != sorted((W.canon(x) for x in u0), key=repr):
                    ctx.violate('arguments', 'fold %d does not start from its own initial sets' % round)
            ex, lab = data_of(self.plan)
            if not np.array_equal(np.asarray(examples), ex) or not np.array_equal(np.asarray(labels), lab):
                ctx.violate('arguments', 'fold %d got other examples or labels' % round)
            if not isinstance(gp, dict) or gp.get('seed') != self.plan['seed']:
                ctx.violate('arguments', 'fold %d did not get the global parameters' % round)
            self.count.setdefault(round, len(saver))
            if self.ext:
                self.ext.begin(round, saver)
        self.sim.disk.crash_point('fold-begin')
        self.sim.seam('user')

    def end(self, round, ok, saver):
        if self.sim.aborting:
            return
        with S.quiet():
            self.active.discard(round)
            self.ended[round] = ok
            if ok:
                self.final[round] = light(saver)
            self.sim.log('fold-end', round, ok)
        self.sim.disk.crash_point('fold-end')

    def adding(self, round, perf):
        if self.ext:
            self.ext.adding(round, perf)

    def added(self, round):
        if self.ext:
            self.ext.added(round)

    def rolling(self, round, k):
        if self.ext:
            self.ext.rolling(round, k)

    def rolled(self, round, k):
        if self.ext:
            self.ext.rolled(round, k)

    def saving(self, round, saver):
        with S.quiet():
            self.pend[round] = light(saver)

    def saved(self, round):
        self.acked[round] = self.pend.pop(round)
        self.maybe.pop(round, None)
        self.ctx.probe('fold_saves')
        self.sim.disk.crash_point('after-ack')

    def save_failed(self, round):
        self.maybe.setdefault(round, []).append(self.pend.pop(round))

    def sleep(self, d):
        if d:
            time.sleep(d)

    def point(self, round):
        self.sim.seam('user')

    def hold(self, round, sp):
        """Some folds wait until every other fold has been started."""
        if not sp.get('hold'):
            return
        want = self.n if self.resume is None else len(self.resume)
        for i in range(60):
            if len(self.begun) >= want:
                self.ctx.probe('holds')
                return
            time.sleep(20000.0)
        if self.sim.aborting:
            return
        waiting = [i for i in range(self.n) if i not in self.begun]
        self.ctx.violate('starved', 'fold(s) %s not started although only %d of %d slots are in use'
                         % (waiting, len(self.active), self.max_thread))

    # -- crash images
    def watch(self, kind, rel, task):
        """disk.on_event: counts complete run-state writes after a fold's thread ended."""
        if kind == 'open-w' and STATE_FILE in rel:
            self.opens += 1
            for r, t in self.tasks.items():
                if r not in self.thread_done_opens and t is not None and t.state == 'done':
                    self.thread_done_opens[r] = self.opens

    def image_state(self):
        fin = [r for r, o in self.thread_done_opens.items() if self.opens - o >= 1 and self.ended.get(r)]
        return {'acked': dict(self.acked), 'pend': dict(self.pend), 'begun': sorted(self.begun),
                'fin': fin, 'returned': getattr(self, 'returned', False), 'ended': dict(self.ended),
                'final': dict(self.final)}


class Bystanders(object):
    """Unrelated threads of the program."""

    def __init__(self, n, sim):
        self.stop = False
        self.ts = []
        for i in range(n):
            t = threading.Thread(target=self.loop, args=(i,), name='bystander-%d' % i)
            self.ts.append(t)
            t.start()

    def loop(self, i):
        d = 0.5 + i
        while not self.stop:
            time.sleep(d)
            d = min(d * 3, 1e6)

    def join(self):
        self.stop = True
        for t in self.ts:
            t.join()


def build(plan, root, spec=None):
    ex, lab = data_of(plan)
    tr, te, L, U = split_of(plan)
    kw = {'max_thread': plan['max_thread'], 'refresh_interval': plan['refresh'], 'saving_path': root}
    if plan.get('ctor_func'):
        kw['target_func'] = fold_body
    with W.Relative(root, plan.get('rel')) as rel:
        kw['saving_path'] = rel.path(root)
        ace = aceThreading(ex, lab, tr, te, L, U, **kw)
    if not plan.get('ctor_func'):
        ace.set_target_function(fold_body)
    if plan.get('saved'):
        # a run that was saved before it was started, and is started by another program
        ace.save()
        ace = aceThreading.recover(os.path.join(root, STATE_FILE))
    return ace


def launch(ctx, plan, sim, hooks, get_ace, spec=None, recovered=False):
    """Start the run the way the plan says; returns (ace, exception or None)."""
    global CUR
    CUR = hooks
    gp = {'spec': spec or plan['spec'], 'seed': plan['seed']}
    box = {}

    def go():
        try:
            box['ace'] = ace = get_ace()
            hooks.started = True
            if recovered and plan.get('own_gp'):
                ace.start_all_threads()         # it has those of the run it continues
            else:
                ace.start_all_threads(global_parameters=gp)
            hooks.returned = True
        except S.SimAbort:
            raise
        except Exception as e:
            box['exc'] = e

    by = Bystanders(plan['bystanders'], sim)
    if plan['from_thread']:
        t = threading.Thread(target=go, name='starter')
        with S.quiet():
            me = sim.me().id
            sim.disk.immune.add(me)
        t.start()
        sim.disk.immune.discard(me)
        t.join()
    else:
        go()
    with S.quiet():
        box['still'] = sorted(hooks.active)
        box['notbegun'] = [i for i in range(hooks.n) if i not in hooks.begun]
    # a failed call may leave fold threads running: wait for them
    for i in range(400):
        if not hooks.active and all(t.state == 'done' for t in hooks.tasks.values() if t is not None):
            break
        time.sleep(50.0)
    by.join()
    return box


def hits(sim):
    return sum(n for k, n in sim.fault_counts.items() if 'crash' not in k)


def recover(ctx, sim, path, resume):
    """Recover a run; with read faults planned, a failing attempt comes first."""
    for again in (0, 1):
        with S.quiet():
            hurt = hits(sim)
        try:
            ace = aceThreading.recover(path)
        except OSError:
            if again or hits(sim) == hurt:
                raise
            ctx.probe('recover_refused')
            with S.quiet():
                sim.disk.heal()
            continue
        with S.quiet():
            sim.disk.heal()
            if hits(sim) != hurt:
                ctx.probe('recover_survived_read_error')
            res = ace.get_results()
            if len(res) != len(resume):
                ctx.violate('recover-shape', 'recovered run has %d folds instead of %d' % (len(res), len(resume)))
            for i, r in enumerate(res):
                if light(r) not in resume[i]:
                    ctx.violate('lost-queries', 'fold %d: recovery yields a record with %d queries that is neither the '
                                'last acknowledged checkpoint (%s) nor the one whose saving had not returned'
                                % (i, len(r), len(resume[i][0][2])))
        return ace


READ_FAULTS = ({}, {'read_eio': 0.3}, {'read_emfile': 0.3}, {'read_part': 0.3}, {'read_eio': 0.1, 'read_part': 0.1})


def compare(ctx, plan, ace, ref, what, cls='record', only=None):
    res = ace.get_results()
    if len(res) != len(ref):
        ctx.violate(cls, '%s: %d results for %d folds' % (what, len(res), len(ref)))
        return
    for i, r in enumerate(res):
        if only is not None and i not in only:
            continue
        got = W.canon_io(r)
        if got != ref[i]:
            ctx.violate(cls, '%s: fold %d differs from the sequential record: %s' % (what, i, W.diff(ref[i], got)))


COMPONENTS = {'real': ['alipy.utils.multi_thread.aceThreading', 'alipy.experiment.StateIO / State', 'alipy.index collections',
                       'threading.Thread (stock module)', 'prettytable', 'pickle'],
              'stub': ['fold functions (deterministic toy active-learning loops of the harness)',
                       'locks, thread start and scheduler', 'clocks', 'file writes (SimWriter over tmpfs)', 'stdout']}
ASSUMPTIONS = ['preemption granularity = source lines of alipy plus every lock, clock, print and file operation',
               'library code outside alipy (numpy, pickle, prettytable) runs atomically between those points']
