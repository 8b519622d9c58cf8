"""C03: a fold's record determines its workspace and totals in every history."""
import copy
import os
import pickle
import re
import threading

import numpy as np

from alipy.experiment import StateIO, State
from alipy.utils.interface import BaseCollection

from .. import sim as S
from .. import work as W
from ..runner import Check


def scramble(coll):
    """Change an index container in place."""
    try:
        if isinstance(coll, BaseCollection):
            xs = list(coll.index)
            if xs:
                coll.difference_update(xs[:1])
        elif isinstance(coll, list):
            if coll:
                coll.pop()
            coll.append(987654)
        elif isinstance(coll, np.ndarray) and coll.size and coll.dtype.kind in 'if':
            coll.flat[0] = 987654
    except Exception:
        pass


HEAD = []


def rows(text):
    """The data rows of the summary tables in a text; later rows come without the header of the first."""
    out = []
    for ln in text.replace('\r', '\n').splitlines():
        cells = [c.strip() for c in ln.strip().strip('|').split('|')]
        if not ln.strip().startswith('|'):
            continue
        if 'round' in cells:
            HEAD[:] = cells
        elif HEAD:
            out.append(dict(zip(HEAD, cells)))
    return out


def numbers(cell):
    return [float(x) for x in re.findall(r'-?\d+\.?\d*(?:e[-+]?\d+)?', cell)]


def summary(io, model):
    _, _, L, U = io.get_workspace(0)
    ps = [st.get_value('performance') for st in io]
    return {'round': [(model.f['round'], 0)], 'number of queries': [(len(model.states), 0)],
            'initially labeled data': [(len(L), 0), (100.0 * len(L) / (len(L) + len(U)), 0.0051)],
            'cost': [(sum(s['cost'] for s in model.states), 1e-6)],
            'Performance:': [(np.mean(ps) if ps else 0, 0.00051), (np.std(ps) if ps else 0, 0.0051)]}


class C03(Check):
    id = 'C03'
    title = 'record determines workspace and totals'
    rule = ('A run = 1-3 folds, each with a seeded history of 4-40 operations: adding, removing (any position) and re-querying, '
            'rolling back, reading workspaces and queries, changing returned and handed-in objects, saving, reloading, saves '
            'hit by an interrupt or disk error, kills followed by a restart from the file; folds run one after another or in '
            'threads under a seeded scheduler; after every operation the record is compared with a reference model. '
            'Non-trivial: at least two queries were recorded and one removal, roll back or restart happened.')
    components = {'real': ['alipy.experiment.StateIO / State', 'alipy.index collections', 'pickle', 'threading.Thread'],
                  'stub': ['file writes', 'locks/scheduler', 'clock']}
    assumptions = ['crash model = process kill']
    quick_s = 35

    def gen_plan(self, rng, tier):
        nf = rng.choice([1, 1, 1, 2, 3])
        folds, ops = [], []
        for f in range(nf):
            folds.append(W.gen_fold(rng, f))
            o = []
            for _ in range(rng.randrange(4, 30 if tier == 'quick' else 60)):
                r = rng.random()
                if r < 0.36:
                    o.append(['add', W.gen_query(rng)])
                elif r < 0.40:
                    o.append(['requery', rng.randrange(1000)])
                elif r < 0.47:
                    o.append(['pop', rng.choice([None, 0, 1, 2, -1, 7])])
                elif r < 0.56:
                    o.append(['back', rng.choice([None, rng.randrange(100)])])
                elif r < 0.66:
                    o.append(['read', rng.randrange(100)])
                elif r < 0.72:
                    o.append(['state', rng.randrange(100)])
                elif r < 0.80:
                    o.append(['save'])
                elif r < 0.84:
                    o.append(['badsave', rng.choice([8, 40])])
                elif r < 0.89:
                    o.append(['restart'])
                elif r < 0.92:
                    o.append(['copy', rng.choice(['deepcopy', 'pickle'])])
                elif r < 0.95:
                    o.append(['initial', round(rng.random(), 3)])
                else:
                    o.append(['kill', round(rng.random(), 3)])
            # looking at the record may itself change hidden state, so that some histories are looked at only now and then
            look = rng.choice([1.0, 0.5, 0.2])
            ops.append([op + [rng.random() < look] for op in o])
        return {'folds': folds, 'ops': ops, 'threads': nf > 1 and rng.random() < 0.7,
                'verbose': rng.random() < 0.4, 'interval': rng.choice([1, 1, 2, 3]), 'check': rng.random() < 0.8,
                'params': W.gen_params(rng, fault_p={'enospc': 0.05, 'rename_eio': 0.05, 'open_eio': 0.05},
                                       max_faults=100, crash_p=1.0, max_crash=100000)}

    def shrink(self, p):
        if len(p['folds']) > 1:
            for i in range(len(p['folds'])):
                q = copy.deepcopy(p)
                del q['folds'][i]
                del q['ops'][i]
                q['threads'] = False
                yield q
        for i in range(len(p['folds'])):
            o = p['ops'][i]
            for size in (len(o) // 2, len(o) // 4, 1):
                if size < 1:
                    continue
                for j in range(0, len(o), size):
                    q = copy.deepcopy(p)
                    q['ops'][i] = o[:j] + o[j + size:]
                    yield q

    def execute(self, plan, ctx):
        nf = len(plan['folds'])
        rows(repr(StateIO(0, [0, 1], [2], [0], [1], verbose=False)))

        def fold(i, sim):
            fp = plan['folds'][i]
            path = os.path.join(ctx.root, 'fold_%d.pkl' % i)
            model = W.FoldModel(fp)
            train, test, L, U = W.fold_args(fp)
            io = StateIO(fp['round'], train, test, L, U, saving_path=path, verbose=plan['verbose'],
                         check_flag=plan['check'], print_interval=plan.get('interval', 1))
            for x in (train, test, L, U):
                scramble(x)                      # handed-in objects stay the caller's
            saved = None                         # model of the last acknowledged save
            me = sim.me()
            sim.disk.immune.add(me.id)
            what = 'creation'

            def compare(what, io=io):
                with S.quiet():
                    got = W.canon_io(io)
                    want = model.canon_io()
                    if got != want:
                        ctx.violate('record', 'fold %d after %s: %s' % (i, what, W.diff(want, got)))
                        raise _Stop()

            def shown(text, what, io):
                """A row of the printed summary: what it says about the record."""
                want = summary(io, model)
                for row in rows(text):
                    for nm in want:
                        if nm not in row:
                            continue
                        a, b = numbers(row.get(nm, '')), want[nm]
                        if len(a) < len(b) or any(abs(x - y) > tol for (y, tol), x in zip(b, a)):
                            ctx.violate('summary', 'fold %d after %s: the printed summary says %s = %r instead of %s' % (
                                i, what, nm, row.get(nm), [y for y, _ in b]))
                            raise _Stop()
                return len(rows(text))
            compare(what, io)
            for op in plan['ops'][i]:
                what = op[0]
                said = len(sim.out)
                if what == 'add':
                    with S.quiet():
                        r = W.build_query(op[1], model)
                    if r is None:
                        continue
                    st = r[0]
                    io.add_state(st)
                    model.states.append(r[1])
                    with S.quiet():
                        st.add_element('later', 1)          # the caller's own object
                        st.set_value('performance', -99.0)
                        scramble(st.get_value('select_index'))
                elif what == 'requery':
                    if not model.states:
                        continue
                    items = model.states[op[1] % len(model.states)]['items']
                    st = State(list(items), 0.25)
                    io.add_state(st)
                    model.states.append({'items': list(items), 'n': len(items), 'cost': 0.0,
                                         'canon': tuple(sorted([('performance', 0.25),
                                                                ('select_index', W.canon(list(items)))]))})
                elif what == 'pop':
                    if not model.states:
                        continue
                    k = op[1]
                    if k is None or k == -1:
                        got = io.pop() if k is None else io.pop(-1)
                        exp = model.states.pop()
                    else:
                        k %= len(model.states)
                        got = io.pop(k)
                        exp = model.states.pop(k)
                    if W.canon_state(got) != exp['canon']:
                        ctx.violate('pop', 'fold %d: pop(%s) returned another query' % (i, k))
                    ctx.probe('removed')
                elif what in ('back', 'read'):
                    k = None if op[1] is None else op[1] % (len(model.states) + 1)
                    if what == 'back':
                        ws = io.recover_workspace() if k is None else io.recover_workspace(k)
                        if k is not None:
                            del model.states[k:]
                        ctx.probe('removed')
                    else:
                        ws = io.get_workspace(k)
                    with S.quiet():
                        el, eu = model.workspace(k)
                        tr, te, _, _ = W.fold_args(fp)
                        g = (W.canon(ws[0]), W.canon(ws[1]), W.canon_items(ws[2]), W.canon_items(ws[3]))
                        e = (W.canon(tr), W.canon(te), el, eu)
                        for nm, a, b in zip(('train', 'test', 'labeled', 'unlabeled'), g, e):
                            if a != b:
                                ctx.violate('workspace', 'fold %d: %s(%s) of %d queries: %s set is %s instead of %s' % (
                                    i, 'recover_workspace' if what == 'back' else 'get_workspace', k, len(model.states),
                                    nm, W.short(a), W.short(b)))
                                raise _Stop()
                        for x in ws:
                            scramble(x)
                elif what == 'state':
                    if not model.states:
                        continue
                    k = op[1] % len(model.states)
                    st = io.get_state(k)
                    with S.quiet():
                        if W.canon_state(st) != model.states[k]['canon']:
                            ctx.violate('query', 'fold %d: get_state(%d) returns another query' % (i, k))
                        st.set_value('performance', -5)
                        st.add_element('mine', 1)
                        scramble(st.get_value('select_index'))
                elif what == 'save':
                    io.save()
                    saved = model.copy()
                elif what == 'badsave':
                    sim.disk.immune.discard(me.id)
                    sim.arm_interrupt(KeyboardInterrupt, op[1])
                    try:
                        io.save()
                        saved = model.copy()
                    except (OSError, KeyboardInterrupt):
                        sim.disarm()
                        saved = self.either(ctx, i, path, saved, model)
                    sim.disarm()
                    sim.disk.immune.add(me.id)
                    sim.disk.full = False
                elif what == 'restart':
                    if saved is None:
                        continue
                    io = StateIO.load(path)
                    model = saved.copy()
                    ctx.probe('restarts')
                elif what == 'kill':
                    # killed somewhere inside a save: memory is lost, the file as it was at that instant remains
                    with S.quiet():
                        n0 = len(sim.disk.images)
                    sim.params.crash_p = 1.0
                    io.save()
                    with S.quiet():
                        imgs = [im for im in sim.disk.images[n0:]]
                        pick = imgs[int(op[1] * len(imgs)) % len(imgs)] if imgs else None
                        new = model
                        if pick is not None and not plan['threads']:
                            S.restore_dir(ctx.root, pick['files'])
                            if not os.path.exists(path):
                                if saved is not None:
                                    ctx.violate('lost', 'fold %d: checkpoint vanished after a kill' % i)
                                    raise _Stop()
                                io.save()
                                saved = model.copy()
                            else:
                                m = self.either(ctx, i, path, saved, model)
                                if m is None:
                                    io.save()
                                    m = model
                                saved = m.copy()
                        else:
                            saved = model.copy()
                    io = StateIO.load(path)
                    model = saved.copy()
                    ctx.probe('restarts')
                elif what == 'copy':
                    old = io
                    io = copy.deepcopy(io) if op[1] == 'deepcopy' else pickle.loads(pickle.dumps(io))
                    with S.quiet():
                        while len(old):
                            old.pop()
                elif what == 'initial':
                    io.set_initial_point(op[1])
                    model.initial_point = op[1]
                with S.quiet():
                    printed = ''.join(x for t, x in sim.out[said:] if t == me.id)
                    if what in ('add', 'requery'):
                        due = plan['verbose'] and len(model.states) % plan.get('interval', 1) == 0
                        if shown(printed, what, io) != due:
                            ctx.violate('summary', 'fold %d: query %d %s its summary (verbose=%s, print_interval=%d)' % (
                                i, len(model.states), 'does not print' if due else 'prints', plan['verbose'],
                                plan.get('interval', 1)))
                            raise _Stop()
                        ctx.probe('printed', int(due))
                if op is not plan['ops'][i][-1] and not op[-1]:
                    continue
                compare(what, io)
                with S.quiet():
                    shown(repr(io), what, io)
                    mean = io.get_current_performance()
                    ps = [st.get_value('performance') for st in io]
                    if abs(mean[0] - (np.mean(ps) if ps else 0)) > 1e-9 or abs(mean[1] - (np.std(ps) if ps else 0)) > 1e-9:
                        ctx.violate('performance', 'fold %d after %s: get_current_performance() is %s' % (i, what, mean))
                        raise _Stop()
                    if io.cost_inall != sum(s['cost'] for s in model.states) and \
                            abs(io.cost_inall - sum(s['cost'] for s in model.states)) > 1e-9:
                        ctx.violate('cost', 'fold %d after %s: total cost %s' % (i, what, io.cost_inall))
                    if len(model.states) >= 2:
                        ctx.probe('deep')

        def body(i, sim):
            try:
                fold(i, sim)
            except _Stop:
                pass

        def main(sim):
            if plan['threads']:
                ths = [threading.Thread(target=body, args=(i, sim)) for i in range(nf)]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
            else:
                for i in range(nf):
                    body(i, sim)

        try:
            _, sim = ctx.run('main', S.Params(**plan['params']), main)
        except (S.Violation, S.HarnessError):
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.violate('error', 'an operation raised %s: %s (%s:%s)' % (type(e).__name__, str(e)[:150],
                                                                         os.path.basename(tb.filename), tb.name))
            return
        for e in sim.thread_errors:
            ctx.violate('error', 'an operation raised: %s' % (e,))
        ctx.trivial = not (ctx.probes.get('deep') and (ctx.probes.get('removed') or ctx.probes.get('restarts')))

    @staticmethod
    def either(ctx, i, path, saved, model):
        """Which of the two acceptable records the file holds after a save that did not return."""
        with S.quiet():
            try:
                got = W.canon_io(StateIO.load(path))
            except Exception:
                if saved is not None:
                    ctx.violate('lost', 'fold %d: the checkpoint cannot be loaded after a save that did not return' % i)
                return None
            if got == model.canon_io():
                return model.copy()
            if saved is not None and got == saved.canon_io():
                return saved
            ctx.violate('lost', 'fold %d: after a save that did not return the file holds another record' % i)
            return saved


class _Stop(Exception):
    pass


CHECK = C03
