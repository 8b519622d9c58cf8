"""C04: parallel folds give the same records as running them one after another."""
import copy

from .. import par as P
from .. import sim as S
from .. import work as W
from ..runner import Check


class C04(Check):
    id = 'C04'
    title = 'parallel folds == sequential folds'
    rule = ('A run = 1-6 folds (single/multi-label, list/array/collection indexes) with random budgets, batches, rollbacks '
            'and think times, run by aceThreading under a seeded scheduler with preemption at seeded source lines, random '
            'thread limit, unrelated threads and starting thread. Non-trivial: at least two fold functions overlapped.')
    components = P.COMPONENTS
    assumptions = P.ASSUMPTIONS
    quick_s = 35

    def gen_plan(self, rng, tier):
        p = P.gen_plan(rng, nmax=6)
        p['saved'] = rng.random() < 0.1
        return p

    def shrink(self, p):
        return P.shrink_plan(p)

    def execute(self, plan, ctx):
        ref = P.reference(plan)
        hold = {}

        def main(sim):
            h = P.Hooks(ctx, plan, sim)
            hold['h'] = h
            ex0, lab0 = P.data_of(plan)
            split0 = P.split_of(plan)
            box = P.launch(ctx, plan, sim, h, lambda: P.build(plan, ctx.root))
            if 'exc' in box:
                ctx.violate('error', 'start_all_threads raised %s: %s' % (type(box['exc']).__name__, str(box['exc'])[:200]))
                return
            with S.quiet():
                if sorted(h.begun) != list(range(h.n)):
                    ctx.violate('not-called', 'fold functions called: %s of %d folds' % (sorted(h.begun), h.n))
                for i in h.begun:
                    if i not in h.ended:
                        ctx.violate('returned-early', 'the call returned while fold %d was running' % i)
                P.compare(ctx, plan, box['ace'], ref, 'parallel run')
                # results are the caller's own copies
                r1 = box['ace'].get_results()
                for r in r1:
                    if len(r):
                        r.pop()
                P.compare(ctx, plan, box['ace'], ref, 'after changing a returned result')

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        h = hold['h']
        for e in sim.thread_errors:
            ctx.violate('fold-error', 'a fold function that works alone raised in the parallel run: %s' % (e,))
        ctx.probe('overlaps', 1 if h.overlaps else 0)
        ctx.trivial = not h.overlaps


CHECK = C04
