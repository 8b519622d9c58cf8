"""C01: an acknowledged fold checkpoint survives a crash at any instant."""
import os

from alipy.experiment import StateIO

from .. import sim as S
from .. import work as W
from ..runner import Check


class C01(Check):
    id = 'C01'
    title = 'checkpoint crash atomicity'
    rule = ('A run = 1-3 folds sharing a directory, 2-14 operations (record, pop, roll back, save, reload) on randomly '
            'shaped records, written by one thread or one thread per fold under a seeded scheduler with seeded I/O buffer '
            'size; crash images are taken at seeded file operations, inside writes (torn) and right after '
            'acknowledgements; every image is restored and loaded. Non-trivial: at least one save was acknowledged '
            'and at least one crash image was checked.')
    components = {'real': ['alipy.experiment.StateIO / State', 'alipy.index collections', 'pickle', 'threading.Thread'],
                  'stub': ['file writes (SimWriter over a tmpfs directory)', 'locks/scheduler', 'clock']}
    assumptions = ['crash model = process kill: data handed to the operating system survives, user-space buffers do not',
                   'file operations of one call reach the disk in program order (no power-loss reordering)']
    quick_s = 35
    thorough_s = 900

    def gen_plan(self, rng, tier):
        nf = rng.choice([1, 1, 2, 3])
        threads = nf > 1 and rng.random() < 0.6
        folds = [W.gen_fold(rng, r, big=True) for r in W.gen_rounds(rng, nf)]
        ops = []
        perf = ['list' if rng.random() < 0.1 else None for _ in range(nf)]
        n = rng.randrange(3, 22 if tier == 'thorough' else 15)
        for _ in range(n):
            f = rng.randrange(nf)
            r = rng.random()
            if r < 0.42:
                ops.append([f, 'add', W.gen_query(rng, big=True, perf=perf[f])])
            elif r < 0.80:
                ops.append([f, 'save'])
            elif r < 0.86:
                ops.append([f, 'pop'])
            elif r < 0.93:
                ops.append([f, 'recover', rng.randrange(100)])
            else:
                ops.append([f, 'load'])
        for f in range(nf):
            ops.insert(rng.randrange(0, len(ops) + 1), [f, 'save'])
        return {'folds': folds, 'ops': ops, 'threads': threads,
                'rel': rng.random() < 0.25, 'target': [rng.choice(['dir', 'file']) for _ in range(nf)],
                'initial': [rng.choice([None, 0.5]) for _ in range(nf)],
                'verbose': rng.random() < 0.2,
                'params': W.gen_params(rng, crash_p=rng.choice([0.1, 0.3, 0.6]), max_crash=rng.choice([4, 10, 16]))}

    def shrink(self, p):
        ops = p['ops']
        for size in (len(ops) // 2, len(ops) // 4, 1):
            if size < 1:
                continue
            for i in range(0, len(ops), size):
                q = dict(p)
                q['ops'] = ops[:i] + ops[i + size:]
                if q['ops']:
                    yield q
        if p['threads']:
            q = dict(p)
            q['threads'] = False
            yield q

    def execute(self, plan, ctx):
        root = ctx.root
        nf = len(plan['folds'])
        paths, kws, ios = [], [], []
        for i, f in enumerate(plan['folds']):
            if plan['target'][i] == 'dir':
                kws.append(root)
                paths.append(os.path.join(root, 'AL_round_%d.pkl' % f['round']))
            else:
                kws.append(os.path.join(root, 'fold_%d_res.pkl' % i))
                paths.append(kws[-1])
        acked = [None] * nf            # canonical record of the last acknowledged save
        pend = [None] * nf             # of the save in progress

        def state():
            return [(acked[i], pend[i]) for i in range(nf)]

        def body(i, sim, ops):
            f = plan['folds'][i]
            model = W.FoldModel(f)
            model.initial_point = plan['initial'][i]
            io = ios[i]
            for op in ops:
                if op[1] == 'add':
                    with S.quiet():
                        r = W.build_query(op[2], model)
                    if r is None:
                        continue
                    io.add_state(r[0])
                    model.states.append(r[1])
                elif op[1] == 'pop':
                    if model.states:
                        io.recover_workspace(len(model.states) - 1)
                        model.states.pop()
                elif op[1] == 'recover':
                    it = op[2] % (len(model.states) + 1)
                    io.recover_workspace(it)
                    del model.states[it:]
                elif op[1] == 'save':
                    with S.quiet():
                        pend[i] = model.canon_io()
                    io.save()
                    acked[i], pend[i] = pend[i], None
                    ctx.probe('acks')
                    sim.disk.crash_point('after-ack')
                elif op[1] == 'load':
                    if acked[i] is None:
                        continue
                    io = StateIO.load(paths[i])
                    with S.quiet():
                        got = W.canon_io(io)
                        if got != acked[i]:
                            ctx.violate('reload', 'fold %d: load without any crash differs from the last save: %s'
                                        % (i, W.diff(acked[i], got)))
                        model.states = [None] * 0
                        self._rebuild(model, io)

        def main(sim):
            with W.Relative(ctx, plan['rel']) as rel:
                for i, f in enumerate(plan['folds']):
                    ios.append(W.make_io(f, saving_path=rel.path(kws[i]), initial_point=plan['initial'][i], verbose=plan['verbose']))
            sim.disk.image_state = state
            if plan['threads']:
                import threading
                ths = []
                for i in range(nf):
                    th = threading.Thread(target=body, args=(i, sim, [o for o in plan['ops'] if o[0] == i]))
                    ths.append(th)
                for th in ths:
                    th.start()
                for th in ths:
                    th.join()
            else:
                order = [[o for o in plan['ops'] if o[0] == i] for i in range(nf)]
                for i in range(nf):
                    body(i, sim, order[i])

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        if sim.thread_errors:
            ctx.violate('error', 'an operation raised without any fault: %s' % (sim.thread_errors[0],))
        images = list(sim.disk.images)
        images.append({'files': S.snapshot_dir(root), 'state': state(), 'tag': 'end', 'event': -1})
        checked = 0
        for img in images:
            S.restore_dir(root, img['files'])
            for i in range(nf):
                ack, pd = img['state'][i]
                if ack is None and pd is None:
                    continue
                checked += 1
                self.check_one(ctx, i, paths[i], ack, pd, img['tag'])
        ctx.probe('images_checked', checked)
        if not checked or not ctx.probes.get('acks'):
            ctx.trivial = True

    @staticmethod
    def _rebuild(model, io):
        """After a reload the model follows the (already compared) loaded record."""
        states = []
        for k in range(len(io)):
            st = io.get_state(k)
            sel = st.get_value('select_index')
            _, _, _, U0 = io.get_workspace(k)
            _, _, _, U1 = io.get_workspace(k + 1)
            items = [x for x in U0.index if x not in U1.index]
            items = [tuple(x) if isinstance(x, tuple) else int(x) for x in items]
            c = st.get_value('cost') if 'cost' in st.keys() else 0.0
            import numpy as np
            states.append({'items': items, 'canon': W.canon_state(st), 'cost': float(np.sum(c)), 'n': len(sel)})
        model.states = states

    @staticmethod
    def check_one(ctx, i, path, ack, pd, tag):
        if not os.path.exists(path):
            if ack is not None:
                ctx.violate('lost', 'fold %d: acknowledged checkpoint vanished after a kill (%s)' % (i, tag))
            return
        try:
            got = W.canon_io(StateIO.load(path))
        except Exception as e:
            if ack is not None:
                ctx.violate('unreadable', 'fold %d: after a kill (%s) the acknowledged checkpoint cannot be loaded: %s %s'
                            % (i, tag, type(e).__name__, str(e)[:80]))
            return
        if got == ack or (pd is not None and got == pd):
            if pd is not None:
                ctx.probe('new' if got == pd else 'old')
            return
        ref = ack if ack is not None else pd
        ctx.violate('wrong-record', 'fold %d: after a kill (%s) the file holds neither the acknowledged nor the in-progress '
                    'record: %s' % (i, tag, W.diff(ref, got)))


CHECK = C01
