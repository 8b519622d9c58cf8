"""C13: a saved oracle survives crashes and answers as before."""
import copy
import os
import threading

import numpy as np

from alipy.oracle import Oracle, OracleQueryFeatures, OracleQueryInstance, OracleQueryMultiLabel

from .. import sim as S
from .. import work as W
from ..runner import Check

KINDS = ('enospc', 'eio', 'short', 'torn_enospc', 'full', 'open_emfile', 'open_eio', 'open_enospc', 'close_eio',
         'rename_eio', 'rename_enospc', 'fsync_eio', 'unlink_eio') + S.READ_KINDS


def gen_oracle(rng):
    kind = rng.choice(['plain', 'plain', 'instance', 'multi', 'multi', 'feature'])
    return {'kind': kind, 'n': rng.choice([1, 2, 5, 12, 40, 200]), 'k': rng.choice([2, 3, 5]),
            'y': rng.choice(['int', 'int', 'float', 'str', 'vec']), 'cost': rng.choice([None, 'each', 'label']),
            'ex': kind != 'feature' and rng.random() < 0.5, 'idx': rng.choice([None, 'offset', 'name', 'frac', 'neg']),
            'again': rng.choice([0, 0, 0.3]), 'reuse': rng.random() < 0.5, 'seed': rng.randrange(1 << 30)}


class Model(object):
    """What the oracle was told."""

    def __init__(self, d):
        self.d = d
        self.multi = d['kind'] in ('multi', 'feature')
        self.rng = np.random.RandomState(d['seed'] % (1 << 31))
        self.items = {}
        self.exa = {}
        self.label_cost = [round(float(c), 2) for c in self.rng.rand(d['k']) * 5] if self.multi else None
        self.count = 0

    def fresh(self):
        """Another item: (index, label, cost, example)."""
        d, i = self.d, self.count
        self.count += 1
        idx = i if d['idx'] is None else \
            {'offset': lambda: 100 + 7 * i, 'name': lambda: 'img_%d.png' % i, 'frac': lambda: 1.5 + i / 4.0,
             'neg': lambda: 50 - 60 * i}[d['idx']]()
        if self.multi:
            lab = [float(v) for v in np.round(self.rng.rand(d['k']), 3)] if d['kind'] == 'feature' else \
                [int(v) for v in self.rng.randint(0, 2, d['k'])]
            cost = self.label_cost if d['cost'] == 'label' else [round(float(c), 2) for c in self.rng.rand(d['k']) * 9]
        else:
            lab = {'int': lambda: int(self.rng.randint(0, 5)), 'float': lambda: round(float(self.rng.rand()), 4),
                   'str': lambda: 'label-%d' % self.rng.randint(0, 4),
                   'vec': lambda: [int(v) for v in self.rng.randint(0, 2, d['k'])]}[d['y']]()
            cost = round(float(self.rng.rand()) * 9, 2)
        exa = tuple(float(v) for v in np.round(self.rng.rand(3), 4))
        if d['cost'] is None:
            cost = None
        return idx, lab, cost, exa

    def put(self, it):
        self.items[it[0]] = it
        if self.d['ex']:
            self.exa[it[3]] = it[0]

    def build(self):
        d = self.d
        its = [self.fresh() for _ in range(d['n'])]
        for it in its:
            self.put(it)
        kw = {}
        if d['idx']:
            kw['indexes'] = [it[0] for it in its]
        if d['cost'] == 'label' and self.multi:
            kw['cost'] = list(self.label_cost)
        elif d['cost']:
            kw['cost'] = np.array([it[2] for it in its]) if self.rng.rand() < 0.6 else copy.deepcopy([it[2] for it in its])
        labels = np.array([it[1] for it in its])
        if d['ex']:
            kw['examples'] = np.array([it[3] for it in its])
        o = {'plain': Oracle, 'instance': OracleQueryInstance, 'multi': OracleQueryMultiLabel,
             'feature': OracleQueryFeatures}[d['kind']](labels, **kw)
        if d['reuse']:
            W.maul(labels)
            W.maul([list(v) if isinstance(v, tuple) else v for v in kw.values()])
        return o

    def add(self, o, n):
        d = self.d
        its = []
        for _ in range(n):
            it = self.fresh()
            if self.rng.rand() < d['again']:
                # an item or an example the oracle has already been told about
                old = list(self.items.values()) + its
                it = (old[self.rng.randint(len(old))][0],) + it[1:]
            if self.rng.rand() < d['again']:
                old = list(self.items.values()) + its
                it = it[:3] + (old[self.rng.randint(len(old))][3],)
            its.append(it)
        how = self.rng.randint(3)
        if n == 1 and not (self.multi or d['y'] == 'vec'):
            o.add_knowledge(its[0][1], its[0][0], examples=its[0][3] if d['ex'] else None,
                            cost=its[0][2] if d['cost'] else None)
        else:
            # a single label vector: the batch form would be taken apart
            labels = [list(it[1]) if self.multi or d['y'] == 'vec' else it[1] for it in its]
            if how == 1 and self.multi:
                labels = [np.array(x) for x in labels]
            cost = None
            if d['cost'] and not (self.multi and d['cost'] == 'label' and how == 2):
                cost = [it[2] if not self.multi else np.array(it[2]) if how else list(it[2]) for it in its]
            args = (labels, [it[0] for it in its], [it[3] for it in its] if d['ex'] else None, cost)
            o.add_knowledge(args[0], args[1], examples=args[2], cost=args[3])
            if d['reuse']:
                W.maul(args)
        for it in its:
            if not (self.multi and it[0] in self.items):
                self.put(it)

    # -- queries with their expected outcome
    def questions(self):
        ids = list(self.items)
        missing = 'nobody.png' if self.d['idx'] == 'name' else -5
        qs = []
        pick = [ids[0], ids[-1], ids[len(ids) // 2]]
        if self.multi:
            k = self.d['k']
            qs.append(('index', [(i,) for i in ids]))
            qs += [('index', (pick[0],)), ('index', (pick[1], 0)), ('index', [(pick[2], [k - 1, 0]), (pick[0], 1)]),
                   ('index', (missing,)), ('index', [(pick[0],), (missing, 1)])]
            if self.d['ex']:
                e = self.items[pick[2]][3]
                qs += [('example', [(e,)]), ('example', [(e, [0, 1])]), ('example', [((9.0, 9.0, 9.0),)])]
        else:
            qs.append(('index', ids))
            qs += [('index', pick[0]), ('index', list(pick)), ('index', missing), ('index', [pick[0], missing])]
            if self.d['ex']:
                es = [self.items[i][3] for i in pick]
                qs += [('example', es), ('example', list(es[0])), ('example', [es[0], (9.0, 9.0, 9.0)])]
        return qs

    def answer(self, how, q):
        sup, cost = [], []
        if not isinstance(q, list) or (how == 'example' and not self.multi and isinstance(q[0], float)):
            q = [q]
        for x in q:
            labs = None
            if how == 'example':
                e = tuple(x[0]) if self.multi else tuple(x)
                labs = x[1] if self.multi and len(x) > 1 else None
                if e not in self.exa:
                    return 'KeyError'
                i = self.exa[e]
            elif self.multi:
                i = x[0]
                labs = x[1] if len(x) > 1 else None
            else:
                i = x
            if i not in self.items:
                return 'KeyError'
            it = self.items[i]
            if self.multi:
                labs = list(range(self.d['k'])) if labs is None else labs if isinstance(labs, list) else [labs]
                sup.append([it[1][j] for j in labs])
                cost.append([it[2][j] for j in labs] if it[2] is not None else [1.0] * len(labs))
            else:
                sup.append(it[1])
                cost.append(it[2] if it[2] is not None else 1)
        return W.canon(sup), W.canon(cost)

    def expected(self):
        return [self.answer(h, q) for h, q in self.questions()]


def ask(o, qs, reuse=True):
    out = []
    for how, q in qs:
        try:
            r = o.query_by_index(q) if how == 'index' else o.query_by_example(q)
            out.append((W.canon(r[0]), W.canon(r[1])))
            if reuse:
                W.maul(r)
        except Exception as e:
            out.append('KeyError' if isinstance(e, KeyError) else type(e).__name__)
    return out


def first_diff(qs, want, got):
    for q, a, b in zip(qs, want, got):
        if a != b:
            return '%s query %s: %s instead of %s' % (q[0], W.short(q[1], 60), W.short(b), W.short(a))
    return None


class C13(Check):
    id = 'C13'
    title = 'oracle files'
    rule = ('A run = 1-3 oracles (single-label, vector, multi-label and feature oracles with or without examples, own indexes '
            'and costs; optionally one thread each) that learn, answer, are saved, loaded and replaced by the loaded one, '
            'under seeded disk errors and interrupts; crash images at seeded file operations, inside writes and after '
            'acknowledgements; every file is loaded and asked known, missing and partial queries by index and by example. '
            'Non-trivial: an image with an acknowledged save was checked or a save failed.')
    components = {'real': ['alipy.oracle Oracle/OracleQueryInstance/OracleQueryMultiLabel/OracleQueryFeatures', 'pickle',
                           'threading.Thread'],
                  'stub': ['file writes (SimWriter over a tmpfs directory)', 'locks/scheduler', 'clock']}
    assumptions = ['crash model = process kill: data handed to the operating system survives, user-space buffers do not']
    quick_s = 30

    def gen_plan(self, rng, tier):
        no = rng.choice([1, 1, 2, 3])
        ops = []
        for i in range(no):
            for _ in range(rng.randrange(2, 9)):
                r = rng.random()
                if r < 0.45:
                    ops.append([i, 'save', rng.choice([0, 0, 0, 0, 6, 7, 30, 31, 101])])
                elif r < 0.7:
                    ops.append([i, 'add', rng.choice([1, 1, 2, 5])])
                elif r < 0.82:
                    ops.append([i, 'load'])
                elif r < 0.86:
                    ops.append([i, 'gone'])
                else:
                    ops.append([i, 'ask'])
            ops.append([i, 'save', 0])
        fp = {}
        if rng.random() < 0.5:
            for k in rng.sample(KINDS, rng.choice([1, 1, 2, 3])):
                fp[k] = rng.choice([0.02, 0.1, 0.3])
        return {'oracles': [gen_oracle(rng) for _ in range(no)], 'ops': ops, 'threads': no > 1 and rng.random() < 0.6,
                'dir': rng.random() < 0.5,
                'params': W.gen_params(rng, fault_p=fp, max_faults=rng.choice([1, 3, 100]), line_gap=rng.choice([0, 8, 40]),
                                       crash_p=rng.choice([0, 0.05, 0.2, 0.5]), max_crash=rng.choice([4, 12]))}

    def shrink(self, p):
        for i in range(len(p['ops'])):
            q = dict(p)
            q['ops'] = p['ops'][:i] + p['ops'][i + 1:]
            if q['ops']:
                yield q
        if p['threads']:
            yield dict(p, threads=False)
        for i, o in enumerate(p['oracles']):
            if o['n'] > 2:
                q = dict(p)
                q['oracles'] = list(p['oracles'])
                q['oracles'][i] = dict(o, n=2)
                yield q

    def execute(self, plan, ctx):
        root = ctx.root
        no = len(plan['oracles'])
        paths, args = [], []
        for i in range(no):
            if plan['dir'] and i == 0:
                args.append(root)
                paths.append(os.path.join(root, 'oracle.pkl'))
            else:
                args.append(os.path.join(root, 'o%d.pkl' % i))
                paths.append(args[-1])
        acked, pend = [None] * no, [None] * no       # (questions, answers)

        def look(i, allowed, what):
            """Compare the file with the allowed oracles (first: the one expected)."""
            if not os.path.exists(paths[i]):
                ctx.violate('lost', 'oracle %d: %s the file is gone' % (i, what))
                return
            try:
                o = Oracle.load_oracle(paths[i])
            except Exception as e:
                ctx.violate('unreadable', 'oracle %d: %s the file cannot be loaded: %s %s'
                            % (i, what, type(e).__name__, str(e)[:80]))
                return
            bad = None
            for a in allowed:
                if a is None:
                    continue
                d = first_diff(a[0], a[1], ask(o, a[0]))
                # an older oracle must not know what only a newer one does
                if d is None and (not hasattr(o, 'index_keys') or len(o.index_keys) == a[2]):
                    return
                bad = bad or d or 'it knows %d items instead of %d' % (len(o.index_keys), a[2])
            ctx.violate('wrong', 'oracle %d: %s the loaded oracle answers differently: %s' % (i, what, bad))

        def body(i, sim, ops):
            me = sim.me()
            with S.quiet():
                m = Model(plan['oracles'][i])
                o = m.build()
                bad = first_diff(m.questions(), m.expected(), ask(o, m.questions()))
                if bad:
                    ctx.violate('answers', 'oracle %d: a new oracle answers %s' % (i, bad))
                    return
            for op in ops:
                if op[1] == 'add':
                    m.add(o, op[2])
                elif op[1] == 'ask':
                    with S.quiet():
                        qs = m.questions()
                        want = m.expected()
                    got = ask(o, qs)
                    with S.quiet():
                        bad = first_diff(qs, want, got)
                        if bad:
                            ctx.violate('answers', 'oracle %d: %s' % (i, bad))
                            return
                elif op[1] == 'load':
                    with S.quiet():
                        if acked[i] is None or acked[i][1] != m.expected():
                            continue
                        hurt = sum(sim.fault_counts.values()) - sim.fault_counts.get('crash', 0)
                    try:
                        o = type(o).load_oracle(paths[i])
                    except OSError as e:
                        with S.quiet():
                            now = sum(sim.fault_counts.values()) - sim.fault_counts.get('crash', 0)
                            if now == hurt:
                                ctx.violate('unreadable', 'oracle %d: an acknowledged file cannot be loaded: %s' % (i, e))
                                return
                            ctx.probe('load_refused')
                            continue
                    with S.quiet():
                        bad = first_diff(m.questions(), m.expected(), ask(o, m.questions()))
                        if bad:
                            ctx.violate('answers', 'oracle %d: loaded while the disk has errors it answers %s' % (i, bad))
                            return
                elif op[1] == 'gone':
                    # the directory does not exist (any more)
                    p = os.path.join(root, 'gone', 'o%d.pkl' % i)
                    err = None
                    try:
                        o.save_oracle(p)
                    except OSError as e:
                        err = e
                    with S.quiet():
                        if err is None:
                            ctx.probe('gone_created')
                            try:
                                bad = first_diff(m.questions(), m.expected(), ask(Oracle.load_oracle(p), m.questions()))
                            except OSError as e:
                                bad = 'nothing (%s)' % e
                            if bad:
                                ctx.violate('lost', 'oracle %d: saving into a missing directory returned but loading gives %s'
                                            % (i, bad))
                                return
                        else:
                            ctx.probe('gone_refused')
                elif op[1] == 'save':
                    with S.quiet():
                        me_now = (m.questions(), m.expected(), len(m.items))
                        pend[i] = me_now
                    for again in (0, 1):
                        with S.quiet():
                            hurt = sum(sim.fault_counts.values()) - sim.fault_counts.get('crash', 0)
                            since = len(sim.disk.files)
                        if op[2] and not again:
                            sim.arm_interrupt(MemoryError if op[2] % 2 else KeyboardInterrupt, op[2])
                        err = None
                        try:
                            o.save_oracle(args[i])
                        except (S.SimAbort, S.HarnessError):
                            raise
                        except BaseException as e:
                            err = type(e).__name__ + ': ' + str(e)[:80]
                        sim.disarm()
                        with S.quiet():
                            sim.disk.mark_leaks(since, os.path.basename(paths[i]))
                            sim.disk.finalise_leaked()
                            bad = first_diff(me_now[0], me_now[1], ask(o, me_now[0]))
                            if bad:
                                ctx.violate('memory', 'oracle %d: saving changed its answers: %s' % (i, bad))
                                return
                            if err is None:
                                acked[i], pend[i] = me_now, None
                                look(i, [me_now], 'after a save that returned')
                                ctx.probe('acks')
                                break
                            now = sum(sim.fault_counts.values()) - sim.fault_counts.get('crash', 0)
                            if again or now == hurt:
                                ctx.violate('not-healed' if again else 'error', 'oracle %d: saving raised %s %s' % (
                                    i, err, 'although the disk works again' if again else 'without any fault'))
                                return
                            ctx.probe('failed')
                            if acked[i] is not None:
                                look(i, [acked[i], me_now], 'after a failed save')
                        sim.disk.immune.add(me.id)
                        sim.disk.full = False
                    sim.disk.immune.discard(me.id)
                    sim.disk.crash_point('after-ack')
                if ctx.violations:
                    return

        def main(sim):
            sim.disk.image_state = lambda: (list(acked), list(pend))
            if plan['threads']:
                ths = [threading.Thread(target=body, args=(i, sim, [o for o in plan['ops'] if o[0] == i]))
                       for i in range(no)]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join()
            else:
                for i in range(no):
                    body(i, sim, [o for o in plan['ops'] if o[0] == i])

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        if sim.thread_errors:
            ctx.violate('error', 'an operation raised: %s' % (sim.thread_errors[0],))
        n = 0
        for img in sim.disk.images:
            if ctx.violations or not img['state']:
                break
            S.restore_dir(root, img['files'])
            for i in range(no):
                if img['state'][0][i] is not None:
                    n += 1
                    look(i, [img['state'][0][i], img['state'][1][i]], 'after a kill (%s)' % img['tag'])
        ctx.probe('images_checked', n)
        ctx.trivial = not (n or ctx.probes.get('failed'))


CHECK = C13


def _warm_up():
    import pickle
    import random
    rng = random.Random(0)
    for _ in range(60):
        m = Model(gen_oracle(rng))
        o = m.build()
        pickle.loads(pickle.dumps(o))


_warm_up()
