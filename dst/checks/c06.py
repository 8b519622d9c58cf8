"""C06: one failing fold never damages the others."""
import os

from alipy.utils.multi_thread import aceThreading

from .. import par as P
from .. import sim as S
from .. import work as W
from ..runner import Check


class C06(Check):
    id = 'C06'
    title = 'failing folds are contained'
    rule = ('A run = 1-6 folds of which a seeded subset raises at a seeded query (before it, after recording it unsaved, or '
            'at the very start/end), under a seeded scheduler; afterwards the saved run is recovered and continued without '
            'the failure. Non-trivial: at least one fold failed.')
    components = P.COMPONENTS
    assumptions = P.ASSUMPTIONS
    quick_s = 35

    def gen_plan(self, rng, tier):
        p = P.gen_plan(rng, nmax=5)
        n = len(p['folds'])
        k = rng.choice([1, 1, 1, 2, n])
        for i in rng.sample(range(n), min(k, n)):
            sp = p['spec'][str(i)]
            sp['fail'] = rng.randrange(0, sp['budget'] + 1)
            sp['fail_when'] = rng.choice(['pre', 'pre', 'added'])
            if sp['fail_when'] == 'added' and sp['fail'] >= sp['budget']:
                sp['fail_when'] = 'pre'
        p['params']['max_steps'] = 300000
        p['again'] = rng.random() < 0.3
        return p

    def shrink(self, p):
        return P.shrink_plan(p)

    def execute(self, plan, ctx):
        n = len(plan['folds'])
        ref = P.reference(plan)
        full = P.reference(plan, nofail=True)
        keep = {}

        def main(sim):
            h = P.Hooks(ctx, plan, sim)
            keep['h'] = h
            box = P.launch(ctx, plan, sim, h, lambda: P.build(plan, ctx.root))
            if 'exc' in box:
                ctx.violate('error', 'start_all_threads raised %s: %s' % (type(box['exc']).__name__,
                                                                          str(box['exc'])[:200]))
                return
            if box['still']:
                ctx.violate('returned-early', 'the call returned while fold(s) %s were running' % box['still'])
            if box['notbegun']:
                ctx.violate('not-started', 'the call returned but fold(s) %s were never started' % box['notbegun'])
            with S.quiet():
                P.compare(ctx, plan, box['ace'], ref, 'run with failing folds')

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        h = keep['h']
        failed = sorted(i for i in h.ended if not h.ended[i])
        for e in sim.thread_errors:
            if e[1] != 'FoldFailure':
                ctx.violate('fold-error', 'unexpected error in a thread: %s' % (e,))
        if ctx.violations:
            return
        ctx.trivial = not failed
        expect = {i: None for i in failed}
        # recover and continue, possibly failing once more in the same folds
        rounds = [P.without_failures(plan['spec'])]
        if plan['again']:
            rounds.insert(0, plan['spec'])
        for step, spec in enumerate(rounds):
            resume = {}
            for i in failed:
                resume[i] = [h.acked[i]] if i in h.acked else [P.light(P.ref_io(plan, i))]
            last = step == len(rounds) - 1
            prev = h

            def again(sim):
                h2 = P.Hooks(ctx, plan, sim, resume=resume, acked=prev.acked)
                keep['h'] = h2
                path = os.path.join(ctx.root, P.STATE_FILE)
                box = P.launch(ctx, plan, sim, h2, lambda: aceThreading.recover(path), spec=spec)
                if 'exc' in box:
                    ctx.violate('recover-error', 'recovering after failed folds raised %s: %s'
                                % (type(box['exc']).__name__, str(box['exc'])[:200]))
                    return
                with S.quiet():
                    ran = sorted(h2.begun)
                    if [i for i in failed if i not in ran]:
                        ctx.violate('taken-for-finished', 'fold(s) %s died but recovering does not continue them (ran %s)'
                                    % (failed, ran))
                    extra = [i for i in ran if i not in failed and i in prev.acked]
                    if extra:
                        ctx.violate('rerun', 'fold(s) %s had finished but are run again after recovery' % extra)
                    if last:
                        P.compare(ctx, plan, box['ace'], full, 'after recovery', cls='recovered-record')

            _, sim = ctx.run('again%d' % step, S.Params(**plan['params']), again)
            for e in sim.thread_errors:
                if e[1] != 'FoldFailure':
                    ctx.violate('fold-error', 'unexpected error in a thread: %s' % (e,))
            if ctx.violations:
                return
            h = keep['h']
            failed = sorted(i for i in h.ended if not h.ended[i])


CHECK = C06
