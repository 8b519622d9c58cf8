"""C07: a killed parallel run can always be recovered and converges to the same result."""
import os

from .. import par as P
from .. import sim as S
from .. import work as W
from ..runner import Check


class C07(Check):
    id = 'C07'
    title = 'recovery of killed parallel runs'
    rule = ('A run = 1-5 folds under a seeded scheduler in a fresh or used directory; the process is killed at seeded points '
            '(file operations, inside writes, fold start/end, right after a checkpoint was acknowledged); the directory is '
            'restored to that instant, the run recovered from its files and restarted under another seeded schedule, itself '
            'killed again up to two more times, and finally run to the end; sometimes a read error strikes the first attempt '
            'to recover. Non-trivial: at least one kill hit a run that '
            'had started and was recovered to completion.')
    components = P.COMPONENTS
    assumptions = P.ASSUMPTIONS + ['crash model = process kill: data handed to the operating system survives, user-space '
                                   'buffers do not; operations of one process reach the disk in program order']
    quick_s = 40

    def gen_plan(self, rng, tier):
        p = P.gen_plan(rng, nmax=4)
        p['bystanders'] = 0
        for sp in p['spec'].values():
            if rng.random() < 0.5:
                sp['save'] = 'each'
        p['prior'] = None
        if rng.random() < 0.35:
            import copy
            q = copy.deepcopy(p['spec'])
            for sp in q.values():
                sp['budget'] = rng.randrange(1, 7)
                sp['rollback'] = []
                sp['payload'] = 0
            p['prior'] = {'spec': q, 'seed': p['seed'] + 1}
        p['read'] = rng.choice([0, 0, 0, 0, 0, 1, 2, 3])
        p['depth'] = rng.choice([1, 1, 2, 3])
        p['own_gp'] = rng.random() < 0.4
        p['images'] = rng.choice([1, 2, 3])
        cp = rng.choice([0.02, 0.05, 0.15, 0.4])
        p['params'].update({'crash_p': cp, 'max_crash': 40, 'max_steps': 300000})
        return p

    def shrink(self, p):
        return P.shrink_plan(p)

    def execute(self, plan, ctx):
        n = len(plan['folds'])
        ref = P.reference(plan)
        if plan['prior']:
            pp = dict(plan)
            pp.update(plan['prior'])
            par = dict(plan['params'])
            par.update({'crash_p': 0, 'line_gap': 0})
            self.one(ctx, pp, 'prior', par, lambda: P.build(pp, ctx.root), None, {}, None)
            if ctx.violations:
                return
        ctx.trivial = True
        rng = ctx.rng('choose')
        first = self.one(ctx, plan, 'main', plan['params'], lambda: P.build(plan, ctx.root), None, {}, ref)
        if ctx.violations:
            return
        frontier = self.choose(rng, first, plan['images'])
        # the finished run as well
        end = {'files': S.snapshot_dir(ctx.root), 'state': first[0].image_state(), 'tag': 'end'}
        if rng.random() < 0.3:
            frontier.append(end)
        for a, img in enumerate(frontier):
            label = 'r%d' % a
            for depth in range(plan['depth']):
                st = img['state']
                if not st or not (st['begun'] or st['inherited']):
                    ctx.probe('not_started')
                    break
                S.restore_dir(ctx.root, img['files'])
                resume = {}
                for i in range(n):
                    ok = []
                    if i in st['acked']:
                        ok.append(st['acked'][i])
                    else:
                        ok.append(P.light(P.ref_io(plan, i)))
                    if i in st['pend']:
                        ok.append(st['pend'][i])
                    if i in st['final']:
                        # it had run to its end, maybe without saving all of it
                        ok.append(st['final'][i])
                    resume[i] = ok
                last = depth == plan['depth'] - 1
                params = dict(plan['params'])
                params.update({'fault_p': P.READ_FAULTS[plan.get('read', 0)], 'max_faults': 3})
                if last:
                    params['crash_p'] = 0
                got = self.one(ctx, plan, '%s.%d' % (label, depth), params,
                               None, resume, st, ref)
                if ctx.violations:
                    return
                ctx.trivial = False
                ctx.probe('recoveries')
                ctx.probe('kill_' + img['tag'])
                nxt = self.choose(rng, got, 1)
                if last or not nxt:
                    break
                img = nxt[0]

    @staticmethod
    def choose(rng, got, k):
        imgs = [i for i in got[1] if i['state'] and (i['state']['begun'] or i['state']['inherited'])]
        # prefer different kinds of instants
        rng.shuffle(imgs)
        out, seen = [], set()
        for im in imgs:
            if im['tag'] not in seen:
                seen.add(im['tag'])
                out.append(im)
        for im in imgs:
            if im not in out:
                out.append(im)
        return out[:k]

    def one(self, ctx, plan, label, params, get, resume, st, ref):
        keep = {}

        def main(sim):
            h = P.Hooks(ctx, plan, sim, resume=resume, acked=st.get('acked'))
            h.inherited = bool(resume)
            h.fin0 = set(st.get('fin', ()))
            keep['h'] = h
            base = h.image_state

            def state():
                d = base()
                d['inherited'] = h.inherited
                d['fin'] = sorted(set(d['fin']) | h.fin0)
                done = dict(st.get('final', {}))
                done.update(d['final'])
                d['final'] = done
                return d
            h.image_state = state
            sim.disk.image_state = state
            sim.disk.on_event = h.watch
            box = P.launch(ctx, plan, sim, h, get or
                           (lambda: P.recover(ctx, sim, os.path.join(ctx.root, P.STATE_FILE), resume)),
                           recovered=bool(resume))
            with S.quiet():
                if 'exc' in box:
                    ctx.violate('recover-failed' if resume else 'error', '%s: %s: %s' % (
                        'recovering / restarting the run raised' if resume else 'the run raised',
                        type(box['exc']).__name__, str(box['exc'])[:200]))
                    return
                if resume:
                    bad = [i for i in h.begun if i in h.fin0 and i in st['acked']]
                    if bad:
                        ctx.violate('rerun', 'fold(s) %s had been saved as finished but are run again' % bad)
                if st.get('returned') and [i for i in h.begun if i in st['acked']]:
                    ctx.violate('rerun', 'the run had completed, yet fold(s) %s are run again' % sorted(h.begun))
                if ref is not None:
                    P.compare(ctx, plan, box['ace'], ref, 'recovered run' if resume else 'uninterrupted run',
                              cls='result')

        _, sim = ctx.run(label, S.Params(**params), main)
        for e in sim.thread_errors:
            ctx.violate('fold-error', 'unexpected error in a thread: %s' % (e,))
        return keep['h'], sim.disk.images


CHECK = C07
