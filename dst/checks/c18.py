"""C18: progress reports of a running experiment are always sane."""
import os

import numpy as np
from alipy.utils.multi_thread import aceThreading

from .. import par as P
from .. import sim as S
from .. import work as W
from ..runner import Check


def parse(text):
    """Rows of a printed progress table: (round, queries, performance cell), or None."""
    rows = []
    head = None
    for ln in text.splitlines():
        if not ln.startswith('|'):
            continue
        cells = [c.strip() for c in ln.strip().strip('|').split('|')]
        if head is None:
            head = cells
            continue
        rows.append(cells)
    if head is None or 'round' not in head or 'number_of_queries' not in head:
        return None
    a, b = head.index('round'), head.index('number_of_queries')
    c = [i for i, x in enumerate(head) if x.startswith('performance')]
    e = head.index('time_elapse') if 'time_elapse' in head else None
    return [(r[a], r[b], r[c[0]] if c else '', r[e] if e is not None else None) for r in rows]


def seconds(cell):
    """Seconds of an elapsed-time cell, None if it is not one."""
    parts = cell.split(':')
    if len(parts) != 3 or not all(x.isdigit() for x in parts) or int(parts[1]) > 59 or int(parts[2]) > 59:
        return None
    return int(parts[0]) * 3600 + int(parts[1]) * 60 + int(parts[2])


class Timeline(object):
    """The states a fold's record may show, from the fold's own operations."""

    def __init__(self, n, plan):
        self.perf = [[] for _ in range(n)]
        self.window = [set() for _ in range(n)]       # lengths possible since the last report
        self.cells = [set() for _ in range(n)]
        for i in range(n):
            self.note(i)

    def cell(self, ps):
        if not ps:
            return '%.3f ± %.2f' % (0, 0)
        return '%.3f ± %.2f' % (np.mean(ps), np.std(ps))

    def note(self, i, ps=None):
        ps = self.perf[i] if ps is None else ps
        self.window[i].add(len(ps))
        self.cells[i].add(self.cell(ps))

    def begin(self, i, saver):
        pass

    def adding(self, i, perf):
        with S.quiet():
            self.note(i, self.perf[i] + [perf])
            self.perf[i].append(perf)
            # the old state stays possible until the call returns (it was noted before)

    def added(self, i):
        with S.quiet():
            self.done(i)

    def rolling(self, i, k):
        with S.quiet():
            self.note(i, self.perf[i][:k])
            self.inprog[i] = list(self.perf[i])
            self.perf[i] = self.perf[i][:k]

    inprog = {}

    def rolled(self, i, k):
        with S.quiet():
            self.done(i)

    def done(self, i):
        self.inprog.pop(i, None)

    def reset(self):
        for i in range(len(self.perf)):
            self.window[i] = set()
            self.cells[i] = set()
            self.note(i)
            if i in self.inprog:
                self.note(i, self.inprog[i])


class C18(Check):
    id = 'C18'
    title = 'sane progress reports'
    rule = ('A run = 1-6 folds adding and rolling back queries under a seeded scheduler with preemption at seeded lines, '
            'random refresh interval, wall-clock jumps and stalls; every printed table is parsed and compared with the '
            'states its folds were in since the previous one. Non-trivial: at least one table was printed while folds ran.')
    components = P.COMPONENTS
    assumptions = P.ASSUMPTIONS
    quick_s = 35

    def gen_plan(self, rng, tier):
        p = P.gen_plan(rng, nmax=6)
        p['refresh'] = rng.choice([0.0, 0.0, 0.02, 0.5, 1, 5.0, 1e7])
        p['bystanders'] = rng.choice([0, 0, 2])
        p['saved'] = rng.random() < 0.15
        p['after'] = rng.random() < 0.25
        for sp in p['spec'].values():
            sp['rollback'] = [rng.randrange(5)] if rng.random() < 0.4 else []
            if rng.random() < 0.3:
                sp['sleep'] = rng.choice([0.3, 2.0, 10.0])
        p['params'].update({'jump_p': rng.choice([0, 0.01, 0.1]), 'max_steps': 300000,
                            'line_gap': rng.choice([2, 4, 8, 20])})
        return p

    def shrink(self, p):
        return P.shrink_plan(p)

    def execute(self, plan, ctx):
        n = len(plan['folds'])
        ref = P.reference(plan)
        keep = {'tables': 0, 'live': 0}
        final = []

        def main(sim):
            h = P.Hooks(ctx, plan, sim)
            keep['h'] = h
            tl = Timeline(n, plan)
            tl.inprog = {}
            h.ext = tl
            orig_adding = tl.adding

            def adding(i, perf):
                with S.quiet():
                    tl.inprog[i] = list(tl.perf[i])
                orig_adding(i, perf)
            tl.adding = adding
            last = {'t': None, 'late': 0, 'ts': []}

            def hook(task, text):
                rows = parse(text)
                if rows is None:
                    return
                keep['tables'] += 1
                if h.active:
                    keep['live'] += 1
                if [r[0] for r in rows] != [str(i) for i in range(n)]:
                    ctx.violate('rows', 'a progress table has rows %s instead of one per fold in order'
                                % [r[0] for r in rows])
                    return
                for i, r in enumerate(rows):
                    if r[1] not in [str(x) for x in tl.window[i]]:
                        ctx.violate('queries', 'table shows %s queries for fold %d, which had %s since the previous table'
                                    % (r[1], i, sorted(tl.window[i])))
                    if r[2] not in tl.cells[i] and 'nan' not in r[2]:
                        ctx.violate('performance', 'table shows performance "%s" for fold %d, which had %s since the '
                                    'previous table' % (r[2], i, sorted(tl.cells[i])[:4]))
                now = sim.now
                # the elapsed time: all tables must agree on one moment the fold was started at
                for i, r in enumerate(rows):
                    if r[3] is None or (r[3] == '0' and i not in h.begun):
                        continue
                    sec = 0 if r[3] == '0' else seconds(r[3])
                    if sec is None:
                        ctx.violate('elapsed', 'table shows the elapsed time "%s" for fold %d' % (r[3], i))
                        return
                    lo, hi = start.setdefault(i, [t0, now])
                    # it was computed between the previous table and this one
                    if i not in h.ended:
                        start[i][0] = lo = max(lo, printed[0] - sec - 1.01)
                    start[i][1] = hi = min(hi, now - sec + 0.01)
                    if lo > hi:
                        ctx.violate('elapsed', 'table shows the elapsed time %s for fold %d, %.2fs after it was started at '
                                    'the earliest (%.2fs after the previous table)' % (r[3], i, now - t0, now - printed[0]))
                        return
                    ctx.probe('elapsed_cells')
                printed[0] = now
                # a report may be delayed after it was decided on, so look at the span of three
                ts = last['ts']
                if len(ts) >= 2 and now - ts[-2] < plan['refresh'] and len(h.ended) < n:
                    ctx.violate('interval', 'three reports within %.4fs while folds run, refresh interval is %s'
                                % (now - ts[-2], plan['refresh']))
                ts.append(now)
                last['t'] = now
                last['late'] = 0
                final[:] = rows
                tl.reset()
            t0 = sim.now
            start, printed = {}, [t0]
            sim.out_hook = hook
            last['t'] = t0

            def clock(task, kind):
                if kind != 'mono' or task is not keep.get('starter') or not h.begun:
                    return
                if sim.now - last['t'] > plan['refresh'] + sim.params.tick * 4:
                    last['late'] += 1
                    if last['late'] == 60:
                        ctx.violate('no-report', 'no report although %.3fs passed since the last one, refresh interval %s'
                                    % (sim.now - last['t'], plan['refresh']))
            sim.clock_hook = clock
            still = {'lock': None, 'since': 0, 'seen': 0}

            def added(i):
                orig_added(i)
                # the thread that reports must not wait for a fold without looking at the clock
                st = keep.get('starter')
                if st is None or len(h.begun) < n or st.state != 'block' or st.wake_at is not None:
                    still['lock'] = None
                elif still['lock'] is not st.waiting:
                    still.update({'lock': st.waiting, 'since': sim.now, 'seen': 0})
                else:
                    still['seen'] += 1
                    if still['seen'] >= 3 and sim.now - max(still['since'], last['t']) > plan['refresh'] + 100 * sim.params.tick:
                        ctx.violate('no-report', 'no report for %.3fs while folds run, refresh interval %s: the thread that '
                                    'prints them waits for a fold' % (sim.now - last['t'], plan['refresh']))
            orig_added = tl.added
            tl.added = added

            def get():
                keep['starter'] = sim.me()
                ace = P.build(plan, ctx.root)
                last['t'] = sim.now
                last['ts'] = [sim.now]
                return ace
            box = P.launch(ctx, plan, sim, h, get)
            if 'exc' in box:
                ctx.violate('error', 'the run raised %s: %s' % (type(box['exc']).__name__, str(box['exc'])[:200]))
                return
            with S.quiet():
                P.compare(ctx, plan, box['ace'], ref, 'run with reports')
                keep['want'] = [(str(i), str(ref[i]['n']), tl.cell(tl.perf[i])) for i in range(n)]
                for i in range(n):
                    if not final:
                        ctx.violate('final', 'no table was printed at the end')
                        break
                    exp = keep['want'][i]
                    if final[i][:3] != exp:
                        ctx.violate('final', 'after completion the last table shows %s instead of %s' % (final[i], exp))

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        for e in sim.thread_errors:
            ctx.violate('fold-error', 'a report disturbed a fold: %s' % (e,))
        if plan.get('after') and not ctx.violations and not any(sp.get('nosave') for sp in plan['spec'].values()):
            self.after(plan, ctx, keep['want'], final)
        ctx.probe('tables', keep['tables'])
        ctx.probe('tables_while_running', keep['live'])
        ctx.trivial = not keep['live']

    def after(self, plan, ctx, want, final):
        """The completed run is recovered and continued: there is nothing left to run, its table shows the final numbers."""
        del final[:]

        def main(sim):
            def hook(task, text):
                rows = parse(text)
                if rows is not None:
                    final[:] = rows
            sim.out_hook = hook
            try:
                ace = aceThreading.recover(os.path.join(ctx.root, P.STATE_FILE))
                ace.start_all_threads()
            except S.SimAbort:
                raise
            except Exception as e:
                ctx.violate('error', 'continuing a completed run raised %s: %s' % (type(e).__name__, str(e)[:200]))
                return
            with S.quiet():
                if [r[:3] for r in final] != want:
                    ctx.violate('final', 'the table of a completed run that was recovered shows %s instead of %s' % (final, want))
        ctx.run('after', S.Params(**dict(plan['params'], fault_p=0)), main)


CHECK = C18
