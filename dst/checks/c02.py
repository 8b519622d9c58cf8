"""C02: a failed checkpoint write is reported and destroys nothing."""
import copy
import os
import threading

from alipy.experiment import StateIO

from .. import sim as S
from .. import work as W
from ..runner import Check

KINDS = ('enospc', 'eio', 'short', 'torn_enospc', 'full', 'open_emfile', 'open_eio', 'open_enospc', 'close_eio',
         'rename_eio', 'rename_enospc', 'fsync_eio', 'unlink_eio')


class C02(Check):
    id = 'C02'
    title = 'failed checkpoint writes'
    rule = ('A run = 1-3 folds (optionally in their own threads, sharing a directory), 3-16 operations each; seeded saves meet '
            'disk errors (full disk, I/O error, short/torn writes, failing open, close, rename), an interrupt or a failing '
            'allocation at a seeded line; after each failure the file is loaded, the record inspected, the disk healed and the record saved again. '
            'Non-trivial: at least one save failed.')
    components = {'real': ['alipy.experiment.StateIO / State', 'alipy.index collections', 'pickle', 'threading.Thread'],
                  'stub': ['file writes (SimWriter over a tmpfs directory)', 'locks/scheduler', 'clock']}
    assumptions = ['an error returned by close or rename leaves the target as it was',
                   'files a failed save left open are flushed and closed by garbage collection at once']
    quick_s = 35

    def gen_plan(self, rng, tier):
        nf = rng.choice([1, 1, 2, 3])
        folds = [W.gen_fold(rng, r, big=True) for r in W.gen_rounds(rng, nf)]
        ops = []
        for f in range(nf):
            for _ in range(rng.randrange(3, 12)):
                r = rng.random()
                if r < 0.4:
                    ops.append([f, 'add', W.gen_query(rng, big=True)])
                elif r < 0.75:
                    ops.append([f, 'save'])
                elif r < 0.87:
                    ops.append([f, 'save', rng.choice([6, 30, 30, 400]), rng.choice(['stop', 'memory'])])
                elif r < 0.94:
                    ops.append([f, 'recover', rng.randrange(100)])
                else:
                    ops.append([f, 'load'])
            ops.append([f, 'save'])
        fp = {}
        for k in rng.sample(KINDS, rng.choice([1, 1, 2, 3])):
            fp[k] = rng.choice([0.05, 0.2, 0.5])
        return {'folds': folds, 'ops': ops, 'threads': nf > 1 and rng.random() < 0.6,
                'rel': rng.random() < 0.25, 'target': [rng.choice(['dir', 'file']) for _ in range(nf)],
                'params': W.gen_params(rng, fault_p=fp, max_faults=rng.choice([1, 3, 100]),
                                       trace_files=rng.choice([(), (), (), ('pickle.py',)]))}

    def shrink(self, p):
        ops = p['ops']
        for size in (len(ops) // 2, len(ops) // 4, 1):
            if size < 1:
                continue
            for i in range(0, len(ops), size):
                q = dict(p)
                q['ops'] = ops[:i] + ops[i + size:]
                if q['ops']:
                    yield q
        if p['threads']:
            q = dict(p)
            q['threads'] = False
            yield q

    def execute(self, plan, ctx):
        root = ctx.root
        nf = len(plan['folds'])
        paths, kws, ios = [], [], []
        for i, f in enumerate(plan['folds']):
            if plan['target'][i] == 'dir':
                kws.append(root)
                paths.append(os.path.join(root, 'AL_round_%d.pkl' % f['round']))
            else:
                kws.append(os.path.join(root, 'fold_%d_res.pkl' % i))
                paths.append(kws[-1])
        acked = [None] * nf
        ok_last = [None] * nf          # records the file may hold

        def look(i, allowed, what):
            if not os.path.exists(paths[i]):
                ctx.violate('lost', 'fold %d: %s the checkpoint file is gone' % (i, what))
                return
            try:
                got = W.canon_io(StateIO.load(paths[i]))
            except Exception as e:
                ctx.violate('unreadable', 'fold %d: %s the checkpoint cannot be loaded: %s %s'
                            % (i, what, type(e).__name__, str(e)[:80]))
                return
            if got not in allowed:
                ctx.violate('wrong-record', 'fold %d: %s the file holds another record: %s'
                            % (i, what, W.diff(allowed[0], got)))

        def body(i, sim, ops):
            f = plan['folds'][i]
            me = sim.me()
            model = W.FoldModel(f)
            io = ios[i]
            sim.disk.immune.discard(me.id)
            for op in ops:
                if op[1] == 'add':
                    with S.quiet():
                        r = W.build_query(op[2], model)
                    if r is None:
                        continue
                    io.add_state(r[0])
                    model.states.append(r[1])
                elif op[1] == 'recover':
                    it = op[2] % (len(model.states) + 1)
                    io.recover_workspace(it)
                    del model.states[it:]
                elif op[1] == 'load':
                    # same contents, new object (the model keeps describing it)
                    if acked[i] is None or acked[i] != model.canon_io():
                        continue
                    with S.quiet():
                        try:
                            io = StateIO.load(paths[i])
                        except Exception as e:
                            ctx.violate('unreadable', 'fold %d: an acknowledged checkpoint cannot be loaded: %r' % (i, e))
                            return
                elif op[1] == 'save':
                    with S.quiet():
                        want = model.canon_io()
                        since = len(sim.disk.files)
                        hurt0 = sum(sim.fault_counts.values())
                    if len(op) > 2:
                        sim.arm_interrupt(MemoryError if op[3] == 'memory' else KeyboardInterrupt, op[2])
                    err = None
                    try:
                        io.save()
                    except (OSError, KeyboardInterrupt, MemoryError) as e:
                        err = e
                    except S.SimAbort:
                        raise
                    except Exception as e:
                        err = e
                        ctx.violate('wrong-error', 'fold %d: the failing save raised %s: %s' % (i, type(e).__name__, e))
                    sim.disarm()
                    with S.quiet():
                        part = os.path.basename(paths[i])
                        if err is None:
                            sim.disk.mark_leaks(since, part)
                            sim.disk.finalise_leaked()
                            look(i, [want], 'after a save that returned normally')
                            acked[i] = want
                            continue
                        if sum(sim.fault_counts.values()) == hurt0:
                            ctx.violate('error', 'fold %d: save raised without any fault: %r' % (i, err))
                        ctx.probe('failed_saves')
                        ctx.probe('failed_by_%s' % type(err).__name__)
                        e_tb = err.__traceback__
                        del e_tb
                        err = None
                        sim.disk.mark_leaks(since, part)
                        sim.disk.finalise_leaked()
                        if acked[i] is not None:
                            look(i, [acked[i], want], 'after a failed save')
                        mem = W.canon_io(io)
                        if mem != want:
                            ctx.violate('memory', 'fold %d: a failed save changed the record in memory: %s'
                                        % (i, W.diff(want, mem)))
                    sim.disk.immune.add(me.id)
                    full, sim.disk.full = sim.disk.full, False
                    try:
                        io.save()
                    except (S.SimAbort, S.HarnessError):
                        raise
                    except Exception as e:
                        ctx.violate('not-healed', 'fold %d: the disk works again but saving raises %s: %s'
                                    % (i, type(e).__name__, e))
                        return
                    with S.quiet():
                        look(i, [want], 'after the disk works again and a save returned')
                        acked[i] = want
                        ctx.probe('healed')
                    sim.disk.immune.discard(me.id)

        def main(sim):
            with W.Relative(ctx, plan['rel']) as rel:
                for i, f in enumerate(plan['folds']):
                    ios.append(W.make_io(f, saving_path=rel.path(kws[i]), verbose=False))
            if plan['threads']:
                ths = [threading.Thread(target=body, args=(i, sim, [o for o in plan['ops'] if o[0] == i]))
                       for i in range(nf)]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join()
            else:
                for i in range(nf):
                    body(i, sim, [o for o in plan['ops'] if o[0] == i])
            with S.quiet():
                for i in range(nf):
                    if acked[i] is not None:
                        look(i, [acked[i]], 'at the end')

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        if sim.thread_errors:
            ctx.violate('error', 'an operation raised: %s' % (sim.thread_errors[0],))
        ctx.trivial = not ctx.probes.get('failed_saves')


CHECK = C02
