"""C05: the thread limit is respected and the run always makes progress."""
from .. import par as P
from .. import sim as S
from ..runner import Check


class C05(Check):
    id = 'C05'
    title = 'thread limit and progress'
    rule = ('A run = 1-7 folds with random budgets and think times, some of which hold their slot until every other fold has '
            'been started, run by aceThreading under a seeded scheduler (random, priority-based or starving one task) with '
            'seeded stalls, thread limits, unrelated threads, clock resolution and starting thread. Non-trivial: there were more folds than '
            'slots, or unrelated threads, or the run was started from another thread.')
    components = P.COMPONENTS
    assumptions = P.ASSUMPTIONS + ['"bounded" = 60 polls of 20000 simulated seconds of a fold that holds its slot, and '
                                   '400000 yield points per simulation; a deadlock is reported at once']
    quick_s = 35

    def gen_plan(self, rng, tier):
        p = P.gen_plan(rng, nmax=6)
        n = len(p['folds'])
        p['max_thread'] = rng.choice([None, 1, 1, 2, 2, 3, 4, n + 3])
        p['bystanders'] = rng.choice([0, 0, 1, 2, 3, 6])
        p['from_thread'] = rng.random() < 0.4
        p['saved'] = rng.random() < 0.15
        mt = p['max_thread'] or n
        holders = [i for i in range(n) if rng.random() < 0.5][:max(0, min(mt, n) - 1)]
        if mt >= n and rng.random() < 0.3:
            holders = list(range(n))
        for i in range(n):
            p['spec'][str(i)]['save'] = rng.choice(['end', 'each'])
            if i in holders:
                p['spec'][str(i)]['hold'] = True
        if rng.random() < 0.4:
            # clocks with a low resolution
            p['params']['coarse'] = rng.choice([0.016, 1.0, 1.0, 60.0])
            p['refresh'] = rng.choice([0.0, 0.01, 0.4, 1, 30.0])
        p['params'].update({'max_steps': 300000, 'stall_p': rng.choice([0, 0, 0.02, 0.08]),
                            'policy': rng.choice(['random', 'random', 'pct', 'starve', 'starve'])})
        return p

    def shrink(self, p):
        return P.shrink_plan(p)

    def execute(self, plan, ctx):
        n = len(plan['folds'])
        mt = plan['max_thread'] or n

        def main(sim):
            h = P.Hooks(ctx, plan, sim)
            box = P.launch(ctx, plan, sim, h, lambda: P.build(plan, ctx.root))
            if 'exc' in box:
                ctx.violate('error', 'start_all_threads raised %s: %s' % (type(box['exc']).__name__,
                                                                          str(box['exc'])[:200]))
                return
            if box['still']:
                ctx.violate('returned-early', 'the call returned while fold(s) %s were running' % box['still'])
            if box['notbegun']:
                ctx.violate('not-started', 'the call returned but fold(s) %s were never started' % box['notbegun'])

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        for e in sim.thread_errors:
            ctx.violate('fold-error', 'a fold function that works alone raised in the parallel run: %s' % (e,))
        ctx.trivial = not (n > mt or plan['bystanders'] or plan['from_thread'])


CHECK = C05
