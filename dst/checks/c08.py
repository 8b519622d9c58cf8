"""C08: disk errors during a parallel run are contained and recoverable."""
import os

from .. import par as P
from .. import sim as S
from .. import work as W
from ..runner import Check

KINDS = ('enospc', 'eio', 'short', 'torn_enospc', 'full', 'open_emfile', 'open_eio', 'open_enospc', 'close_eio',
         'rename_eio', 'rename_enospc', 'fsync_eio', 'unlink_eio', 'thread_start')


class C08(Check):
    id = 'C08'
    title = 'disk errors in a parallel run'
    rule = ('A run = 1-5 folds under a seeded scheduler with seeded disk errors (full disk, I/O error, short and torn writes, '
            'failing open, close, rename) on the run state or on fold checkpoints, or the system refusing another thread; fold functions either die on the error or '
            'go on; afterwards the disk heals (at once, or only after read errors struck '
            'the first attempt to recover, which must be refused or complete), the run is recovered from the files and '
            'completed. Non-trivial: at least one fault was injected after the run had started.')
    components = P.COMPONENTS
    assumptions = P.ASSUMPTIONS + ['an error returned by close or rename leaves the target as it was']
    quick_s = 40

    def gen_plan(self, rng, tier):
        p = P.gen_plan(rng, nmax=4)
        p['bystanders'] = 0
        kinds = rng.sample(KINDS, rng.choice([1, 1, 2, 3]))
        fp = {k: rng.choice([0.02, 0.1, 0.3]) for k in kinds}
        for sp in p['spec'].values():
            sp['tolerant'] = rng.random() < 0.35
            if rng.random() < 0.6:
                sp['save'] = 'each'
        p['read'] = rng.choice([0, 0, 0, 1, 2, 3, 4])
        p['where'] = rng.choice(['any', 'state', 'folds', 'folds'])
        p['own_gp'] = rng.random() < 0.4
        p['params'].update({'fault_p': fp, 'max_faults': rng.choice([1, 1, 2, 5, 100]), 'max_steps': 300000})
        return p

    def shrink(self, p):
        return P.shrink_plan(p)

    def execute(self, plan, ctx):
        n = len(plan['folds'])
        ref = P.reference(plan)
        keep = {}
        path = os.path.join(ctx.root, P.STATE_FILE)

        def where(rel):
            if S.THREAD in rel:
                return True
            st = P.STATE_FILE in rel
            return plan['where'] == 'any' or st == (plan['where'] == 'state')

        def main(sim):
            h = P.Hooks(ctx, plan, sim)
            keep['h'] = h
            sim.disk.fault_filter = where
            hit = {}

            def on_event(kind, rel, task):
                h.watch(kind, rel, task)
            sim.disk.on_event = on_event
            box = P.launch(ctx, plan, sim, h, lambda: P.build(plan, ctx.root))
            keep['box'] = box
            with S.quiet():
                exc = box.get('exc')
                refused = sim.fault_counts.get('thread_start') and isinstance(exc, RuntimeError)
                if exc is not None and not isinstance(exc, OSError) and not refused:
                    ctx.violate('wrong-error', 'a disk error surfaced as %s: %s' % (type(exc).__name__, str(exc)[:200]))
                if exc is None:
                    if box['still']:
                        ctx.violate('returned-early', 'the call returned while fold(s) %s were running' % box['still'])
                    if box['notbegun']:
                        ctx.violate('not-started', 'the call returned but fold(s) %s never started' % box['notbegun'])
                if exc is not None and not sum(sim.fault_counts.values()):
                    ctx.violate('error', 'the run raised without any fault: %s' % (exc,))
                if 'ace' in box:
                    # folds that were not hit hold their normal records
                    ok = [i for i in h.ended if h.ended[i]]
                    P.compare(ctx, plan, box['ace'], ref, 'fold not hit by the fault', only=ok)
                    dead = [i for i in h.ended if not h.ended[i]]
                    errs = [e for e in sim.thread_errors]
                    if len(errs) < len(dead):
                        ctx.violate('silent', 'fold(s) %s died without any report' % dead)

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        for e in sim.thread_errors:
            if e[1] not in ('OSError', 'PermissionError', 'FileNotFoundError', 'IOError', 'BlockingIOError'):
                ctx.violate('wrong-error', 'unexpected error in a thread: %s' % (e,))
        h = keep['h']
        ctx.trivial = not (sum(sim.fault_counts.values()) and h.begun)
        if ctx.violations or not h.begun:
            return
        maybe = h.maybe
        resume = {}
        for i in range(n):
            ok = [h.acked[i]] if i in h.acked else [P.light(P.ref_io(plan, i))]
            # a save that failed may have left the new record, complete
            ok += maybe.get(i, [])
            if i in h.final:
                ok.append(h.final[i])
            resume[i] = ok
        params = dict(plan['params'])
        # the disk heals before the recovery or during it
        params['fault_p'] = P.READ_FAULTS[plan.get('read', 0)]
        params['max_faults'] = 3

        def again(sim):
            h2 = P.Hooks(ctx, plan, sim, resume=resume, acked=h.acked)

            def get():
                return P.recover(ctx, sim, path, resume)
            box = P.launch(ctx, plan, sim, h2, get, recovered=True)
            with S.quiet():
                if 'exc' in box:
                    ctx.violate('recover-failed', 'after the disk healed recovering raised %s: %s'
                                % (type(box['exc']).__name__, str(box['exc'])[:200]))
                    return
                P.compare(ctx, plan, box['ace'], ref, 'recovered run', cls='result')

        _, sim2 = ctx.run('again', S.Params(**params), again)
        for e in sim2.thread_errors:
            ctx.violate('fold-error', 'unexpected error in a thread: %s' % (e,))


CHECK = C08
