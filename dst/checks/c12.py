"""C12: toolbox settings reopen to the same split after any crash or disk error."""
import os

import numpy as np

from alipy import ToolBox
from alipy.data_manipulate import split_load
from alipy.experiment import StateIO

from .. import sim as S
from .. import work as W
from ..runner import Check

KINDS = ('enospc', 'eio', 'short', 'torn_enospc', 'full', 'open_emfile', 'open_eio', 'open_enospc', 'close_eio',
         'rename_eio', 'rename_enospc', 'fsync_eio', 'unlink_eio') + S.READ_KINDS


def gen_data(rng):
    qt = rng.choice(['AllLabels', 'AllLabels', 'AllLabels', 'PartLabels', 'Features'])
    y = 'multi' if qt == 'PartLabels' else rng.choice(['bin', 'three', 'str', 'multi'] if qt == 'AllLabels' else ['bin', 'three'])
    return {'qt': qt, 'y': y, 'n': rng.choice([8, 12, 20, 40, 300]), 'd': rng.choice([1, 2, 5]),
            'X': True if qt != 'AllLabels' else rng.random() < 0.6, 'seed': rng.randrange(1 << 30),
            'names': qt == 'AllLabels' and y != 'multi' and rng.random() < 0.2,
            'given': rng.choice([0, 0, 0, 1, 2, 3])}


def arrays(d):
    rng = np.random.RandomState(d['seed'] % (1 << 31))
    n = d['n']
    X = np.round(rng.rand(n, d['d']), 4)
    if d['y'] == 'multi':
        y = (rng.rand(n, 3) < 0.5).astype(int)
        y[0], y[1] = [1, 0, 1], [0, 1, 0]
    else:
        k = {'bin': 2, 'three': 3, 'str': 2}[d['y']]
        y = np.array([i % k for i in range(n)])
        rng.shuffle(y)
        if d['y'] == 'str':
            y = np.array(['class%d' % v for v in y])
    idx = [1000 + 3 * i for i in range(n)] if d['names'] else None
    return X, y, idx


def given_split(d):
    """User-supplied tables."""
    rng = np.random.RandomState(d['seed'] % (1 << 31) + 1)
    n = d['n']
    out = [[], [], [], []]
    for _ in range(d['given']):
        p = rng.permutation(n).tolist()
        if d['names']:
            p = [1000 + 3 * i for i in p]
        tr, te = p[:n - 2], p[n - 2:]
        L, U = tr[:3], tr[3:]
        if d['qt'] == 'Features':
            L, U = [(i, j) for i in L for j in range(d['d'])], [(i, j) for i in U for j in range(d['d'])]
        elif d['y'] == 'multi':
            L, U = [(i,) for i in L], [(i,) for i in U]
        for a, b in zip(out, (tr, te, L, U)):
            a.append(b)
    return out


def create(d, path):
    X, y, idx = arrays(d)
    kw = {}
    if d['given']:
        t = given_split(d)
        kw = {'train_idx': t[0], 'test_idx': t[1], 'label_idx': t[2], 'unlabel_idx': t[3]}
    return ToolBox(y=y, X=X if d['X'] else None, instance_indexes=idx, query_type=d['qt'], saving_path=path, **kw)


def base(d):
    X, y, idx = arrays(d)
    return (d['qt'], W.canon(y), W.canon(X) if d['X'] else None)


def settings(d):
    return base(d) + (W.canon(given_split(d)) if d['given'] else None,)


def observe(tb, d, ctx=None):
    """What a user sees of a toolbox (d says which data it should hold)."""
    try:
        sp = W.canon(tb.get_split())
    except Exception as e:
        if 'split' not in str(e):
            raise
        sp = None
    X = y = None
    if d['X']:
        s = tb.get_query_strategy('QueryInstanceRandom') if d['y'] != 'str' else None
        if s is not None:
            X, y = W.canon(s.X), W.canon(s.y)
    if d['qt'] == 'AllLabels':
        o = tb.get_clean_oracle()
        q = [(i,) for i in range(d['n'])] if d['y'] == 'multi' else list(range(d['n']))
        y2 = W.canon([np.asarray(v) if d['y'] == 'multi' else v for v in o.query_by_index(q)[0]])
        if y is not None and y != y2:
            return ('labels differ between oracle and strategy', y, y2)
        y = y2
    if d['X'] and X is None:
        X = W.canon(arrays(d)[0])          # string labels: X is visible only together with y
    return (tb.query_type, y, X, sp)


def well_formed(sp, d, count):
    """A split tuple in canonical form that could be the result of splitting this data."""
    X, y, idx = arrays(d)
    ids = set(idx if idx is not None else range(d['n']))
    try:
        tr, te, L, U = [list(x[1:]) for x in sp[1:]]
        if not len(tr) == len(te) == len(L) == len(U) == count:
            return False
        for a, b, l, u in zip(tr, te, L, U):
            a, b = set(a[1:]), set(b[1:])
            if a | b != ids or a & b or len(a) + len(b) != d['n']:
                return False
            l, u = set(l[1:]), set(u[1:])
            if l & u or not l:
                return False
        return True
    except Exception:
        return False


class C12(Check):
    id = 'C12'
    title = 'toolbox settings'
    rule = ('A run = the life of one saving path (directory or file): creating a toolbox (single-label, multi-label, '
            'partial-label or feature setting, with or without given splits), splitting, splitting again, reopening with '
            'other data, loading, saving fold records next to it, under seeded disk errors and interrupts; crash images are '
            'taken at seeded file operations, inside writes and after acknowledgements; each is restored, loaded and '
            'reopened with other data, and some are continued by another process that splits again. Non-trivial: a crash '
            'image or failed save was followed by a successful reopening.')
    components = {'real': ['alipy.ToolBox', 'alipy.data_manipulate split functions and files', 'alipy.experiment.StateIO',
                           'alipy.oracle', 'pickle'],
                  'stub': ['file writes (SimWriter over a tmpfs directory)', 'clock', 'random sources (seeded)']}
    assumptions = ['crash model = process kill: data handed to the operating system survives, user-space buffers do not',
                   'one process at a time uses a saving path']
    quick_s = 35

    def gen_plan(self, rng, tier):
        procs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = [['open', rng.choice(['A', 'A', 'B'])]]
            for _ in range(rng.randrange(1, 6)):
                r = rng.random()
                if r < 0.4:
                    ops.append(['split', rng.choice([1, 2, 3, 10]), rng.choice([0.2, 0.3, 0.5]), rng.choice([0.3, 0.5]),
                                rng.choice([0, 0, 0, 0, 0, 8, 9, 60, 61])])
                elif r < 0.6:
                    ops.append(['open', rng.choice(['A', 'B'])])
                elif r < 0.7:
                    ops.append(['load'])
                elif r < 0.8:
                    ops.append(['save', rng.choice([0, 0, 0, 8, 9, 60, 61])])
                elif r < 0.9:
                    ops.append(['stateio', rng.randrange(10)])
                else:
                    ops.append(['mutate'])
            procs.append(ops)
        fp = {}
        if rng.random() < 0.5:
            for k in rng.sample(KINDS, rng.choice([1, 1, 2, 3])):
                fp[k] = rng.choice([0.02, 0.1, 0.3])
        A, B = gen_data(rng), gen_data(rng)
        return {'A': A, 'B': B, 'target': rng.choice(['dir', 'dir', 'file']), 'rel': rng.random() < 0.25, 'procs': procs, 'follow': rng.choice([0, 1, 2]),
                'params': W.gen_params(rng, fault_p=fp, max_faults=rng.choice([1, 3, 100]), line_gap=0,
                                       crash_p=rng.choice([0.05, 0.2, 0.5]), max_crash=rng.choice([4, 12]))}

    def shrink(self, p):
        for i in range(len(p['procs'])):
            if len(p['procs']) > 1:
                q = dict(p)
                q['procs'] = p['procs'][:i] + p['procs'][i + 1:]
                yield q
            for j in range(1, len(p['procs'][i])):
                q = dict(p)
                q['procs'] = [list(x) for x in p['procs']]
                del q['procs'][i][j]
                yield q
        if p['follow']:
            q = dict(p)
            q['follow'] = 0
            yield q
        for w in 'AB':
            if p[w]['n'] > 12:
                q = dict(p)
                q[w] = dict(p[w], n=12)
                yield q

    # ------------------------------------------------------------------ one life

    def execute(self, plan, ctx):
        root = ctx.root
        self.arg = root if plan['target'] == 'dir' else os.path.join(root, 'tools.pkl')
        self.file = os.path.join(root, 'al_settings.pkl') if plan['target'] == 'dir' else self.arg
        st = {'acked': None, 'pend': None, 'key': None}
        images = []
        for i, ops in enumerate(plan['procs']):
            imgs = self.life(ctx, plan, 'p%d' % i, ops, st, plan['params'])
            if ctx.violations:
                return
            images += imgs
        rng = ctx.rng('images')
        follow = rng.sample(range(len(images)), min(plan['follow'], len(images)))
        n = 0
        for a, img in enumerate(images):
            if not img['state'] or (img['state']['acked'] is None and img['state']['pend'] is None):
                continue
            S.restore_dir(root, img['files'])
            n += 1
            got = self.look(ctx, plan, img['state'], 'after a kill (%s)' % img['tag'])
            if ctx.violations:
                return
            if a in follow:
                st2 = {'acked': got, 'pend': None, 'key': img['state']['key']}
                other = 'B' if img['state']['key'] == 'A' else 'A'
                ops = [['open', other], ['split', 2, 0.3, 0.5, 0], ['split', 3, 0.3, 0.5, 0], ['load']]
                self.life(ctx, plan, 'f%d' % a, ops, st2, dict(plan['params'], crash_p=0, fault_p={}))
                if ctx.violations:
                    return
                ctx.probe('continued')
        ctx.probe('images_checked', n)
        ctx.trivial = not (n or ctx.probes.get('failed'))

    def allowed(self, plan, st, got):
        if got is None:
            return st['acked'] is None
        if got == st['acked']:
            return True
        p = st['pend']
        if p is None:
            return False
        if 'canon' in p:
            return got == p['canon']
        # a split in progress whose result is not known (it failed)
        d = plan[st['key']]
        return got[:3] == base(d) and got[3] is not None and well_formed(got[3], d, p['count'])

    def look(self, ctx, plan, st, what):
        """Load the saved settings and compare them with what may be there; returns them."""
        if not os.path.exists(self.file):
            if st['acked'] is not None:
                ctx.violate('lost', '%s the saved settings are gone' % what)
            return None
        key = st['key'] or (st['pend'] or {}).get('key')
        try:
            got = observe(ToolBox.load(self.file), plan[key])
        except Exception as e:
            ctx.violate('unreadable', '%s the saved settings cannot be read: %s %s' % (what, type(e).__name__, str(e)[:100]))
            return None
        if not self.allowed(plan, st, got):
            ref = st['acked'] or (st['pend'] or {}).get('canon')
            ctx.violate('wrong', '%s the file holds other settings than those saved: %s instead of %s'
                        % (what, W.short(got[3]) if ref and got[:3] == ref[:3] else W.short(got),
                           W.short(ref[3]) if ref and got[:3] == ref[:3] else W.short(ref)))
        # reopening with whatever data gives the same
        return got

    def life(self, ctx, plan, label, ops, st, params):
        root = ctx.root

        def snap():
            return {'acked': st['acked'], 'pend': st['pend'], 'key': st['key']}

        def main(sim):
            me = sim.me()
            sim.disk.image_state = snap
            tb = None

            def attempt(fn, intr=0):
                """Run fn; on a fault look at the file, heal, and run it again."""
                for again in (0, 1):
                    hurt = sum(sim.fault_counts.values()) - sim.fault_counts.get('crash', 0)
                    since = len(sim.disk.files)
                    if intr and not again:
                        sim.arm_interrupt(MemoryError if intr % 2 else KeyboardInterrupt, intr)
                    try:
                        r = fn()
                        sim.disarm()
                    except (S.SimAbort, S.HarnessError):
                        raise
                    except BaseException as e:
                        sim.disarm()
                        with S.quiet():
                            now = sum(sim.fault_counts.values()) - sim.fault_counts.get('crash', 0)
                            if again or now == hurt:
                                ctx.violate('not-healed' if again else 'error', '%s raised %s: %s %s' % (
                                    op[0], type(e).__name__, str(e)[:120],
                                    'although the disk works again' if again else 'without any fault'))
                                return None, True
                            ctx.probe('failed')
                            ctx.probe('failed_' + op[0])
                            del e
                            sim.disk.mark_leaks(since)
                            sim.disk.finalise_leaked()
                            got = self.look(ctx, plan, st, 'after a failed %s' % op[0])
                            if got is not None and st['acked'] is not None:
                                st['acked'] = got          # what is durable now
                            if st['pend'] is not None:
                                st['pend'] = dict(st['pend'])
                        sim.disk.immune.add(me.id)
                        sim.disk.full = False
                        continue
                    sim.disk.immune.discard(me.id)
                    return r, False
                return None, True

            for op in ops:
                if op[0] == 'open':
                    d = plan[op[1]]
                    with S.quiet():
                        exists = os.path.exists(self.file)
                        if exists and st['acked'] is None:
                            # an unacknowledged creation that became durable
                            st['acked'] = self.look(ctx, plan, st, 'before reopening')
                        fresh = st['acked'] is None
                        if fresh:
                            st['key'] = op[1]
                            st['pend'] = {'canon': settings(d), 'key': op[1]}
                    def make(d=d):
                        with W.Relative(ctx, plan['rel']) as rel:
                            return create(d, rel.path(self.arg))
                    tb, stop = attempt(make)
                    if stop:
                        return
                    with S.quiet():
                        got = observe(tb, plan[st['key']])
                        if fresh:
                            if got != st['pend']['canon']:
                                ctx.violate('create', 'a new toolbox does not hold the given settings: %s' % W.short(got))
                            st['acked'] = got
                        elif got != st['acked']:
                            ctx.violate('reopen', 'reopening gives other settings than the saved ones: %s instead of %s' % (
                                W.short(got[3]), W.short(st['acked'][3])))
                        st['pend'] = None
                        self.look(ctx, plan, st, 'after opening')
                        ctx.probe('created' if fresh else 'reopened')
                elif op[0] == 'split':
                    with S.quiet():
                        d = plan[st['key']]
                        count = len(st['acked'][3][1]) - 1 if st['acked'][3] else op[1]
                        old = st['acked'][3]
                        if not old:
                            st['pend'] = {'count': op[1]}
                    r, stop = attempt(lambda: tb.split_AL(test_ratio=op[2], initial_label_rate=op[3], split_count=op[1],
                                                          all_class=False), op[4])
                    if stop:
                        return
                    with S.quiet():
                        r = W.canon(r)
                        if old:
                            if r != old:
                                ctx.violate('resplit', 'splitting again returned another split than the existed one')
                        else:
                            if not well_formed(r, d, count):
                                ctx.violate('split', 'split_AL returned no split of this data: %s' % W.short(r))
                            st['pend']['canon'] = st['acked'][:3] + (r,)
                            st['acked'] = st['pend']['canon']
                            st['pend'] = None
                            if plan['target'] == 'dir':
                                t = split_load(self.arg)
                                if any(v is None for v in t) or W.canon(t) != r:
                                    ctx.violate('split-files', 'the split files next to the settings hold another split')
                        if W.canon(tb.get_split()) != r:
                            ctx.violate('split', 'get_split differs from the split that was returned')
                        self.look(ctx, plan, st, 'after splitting')
                        ctx.probe('splits')
                elif op[0] == 'load':
                    tb, stop = attempt(lambda: ToolBox.load(self.file))
                    if stop:
                        return
                    with S.quiet():
                        if observe(tb, plan[st['key']]) != st['acked']:
                            ctx.violate('reload', 'loading gives other settings than the saved ones')
                        self.look(ctx, plan, st, 'when loading')
                elif op[0] == 'save':
                    # nothing pending: saving again must keep the same settings
                    with S.quiet():
                        st['pend'] = None
                    _, stop = attempt(tb.save, op[1])
                    if stop:
                        return
                    with S.quiet():
                        self.look(ctx, plan, st, 'after saving')
                elif op[0] == 'stateio':
                    if not st['acked'][3]:
                        continue
                    with S.quiet():
                        nf = len(st['acked'][3][1]) - 1
                        io = tb.get_stateio(op[1] % nf, verbose=False)
                        U = io.get_workspace()[3]
                        s = tb.State(U.index[0], 0.5)
                    io.add_state(s)
                    _, stop = attempt(io.save)
                    if stop:
                        return
                    with S.quiet():
                        rec = os.path.join(root, 'AL_round_%d.pkl' % (op[1] % nf))
                        if not os.path.exists(rec) or W.canon_io(StateIO.load(rec)) != W.canon_io(io):
                            ctx.violate('record', 'a fold record of the toolbox is not found in its directory after saving')
                        self.look(ctx, plan, st, 'after saving a fold record')
                elif op[0] == 'mutate':
                    if not st['acked'][3]:
                        continue
                    with S.quiet():
                        for t in tb.get_split():
                            t[0] = []
                        tr, te, L, U = tb.get_split(0)
                        W.maul((tr, te))
                        U.difference_update(U.index[:1])
                        if observe(tb, plan[st['key']]) != st['acked']:
                            ctx.violate('alias', 'changing what get_split returned changed the toolbox')
                sim.disk.crash_point('after-ack')
                if ctx.violations:
                    return

        _, sim = ctx.run(label, S.Params(**params), main)
        return sim.disk.images


CHECK = C12


def _warm_up():
    """The first pickling of a data type in a process differs by some memoised strings: get it over with."""
    import pickle
    import random
    rng = random.Random(0)
    for _ in range(40):
        d = gen_data(rng)
        tb = create(d, None)
        if not d['given']:
            tb.split_AL(split_count=2, initial_label_rate=0.5, all_class=False)
        observe(pickle.loads(pickle.dumps(tb)), d)


_warm_up()
