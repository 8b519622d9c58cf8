"""C16: crowd-oracle history and cost account for every answered query, once."""
import copy
import threading
import time

import numpy as np

from alipy.oracle import Oracle, OracleQueryMultiLabel, Oracles
from alipy.utils.interface import BaseVirtualOracle

from .. import sim as S
from .. import work as W
from ..runner import Check


class Refused(Exception):
    pass


class Member(BaseVirtualOracle):
    """A labeller which may be slow, fail or refuse; it remembers what it answered."""

    def __init__(self, inner, plan):
        self.inner = inner
        self.plan = plan
        self.calls = 0
        self.log = {}                # thread -> last answer

    def query_by_index(self, indexes):
        p = self.plan
        n = self.calls
        self.calls += 1
        do = p['outcomes'][n % len(p['outcomes'])] if p['outcomes'] else 'ok'
        sim = S.SIM
        sim.seam('user')
        if do == 'slow':
            time.sleep(5)
        if do == 'early':
            sim.fault_counts['member_failed'] = sim.fault_counts.get('member_failed', 0) + 1
            raise Refused('no')
        r = self.inner.query_by_index(indexes)
        sim.seam('user')
        if do == 'late':
            sim.fault_counts['member_failed'] = sim.fault_counts.get('member_failed', 0) + 1
            raise IOError('connection to the labeller lost')
        if do == 'tuple':
            r = (list(r[0]), [float(np.sum(c)) for c in r[1]])
        if do == 'array' and len(set(np.size(c) for c in r[1])) == 1:
            r = (r[0], np.array(r[1]))
        self.log[threading.get_ident()] = copy.deepcopy(r)
        return r


def total(results):
    return float(sum(np.sum(c) for r in results for c in r[1]))


def rows(table):
    """Cells of the lines of a printed table (continuation lines of a row dropped)."""
    out = []
    for ln in str(table).splitlines():
        if ln.startswith('|'):
            out.append([c.strip() for c in ln.strip().strip('|').split('|')])
    return out


class C16(Check):
    id = 'C16'
    title = 'crowd oracle accounting'
    rule = ('A run = 1-3 labelling pools (one thread each) sharing 1-5 simulated labellers around real single- and multi-label '
            'oracles; 3-25 queries by name, at random, from several or all labellers, with known, missing and partial indexes, '
            'labellers joining in between; labellers are slow, refuse, or fail before or after answering at seeded calls. '
            'After every query history, total cost and summary are compared with the answers really given. Non-trivial: a '
            'query failed after another one was answered.')
    components = {'real': ['alipy.oracle.Oracles', 'alipy.oracle.Oracle / OracleQueryMultiLabel', 'threading.Thread'],
                  'stub': ['labellers (wrappers that fail, refuse or delay)', 'clock', 'random sources (seeded)',
                           'locks/scheduler']}
    assumptions = ['one pool object is used by one thread; labellers may be shared']
    quick_s = 30

    def gen_plan(self, rng, tier):
        multi = rng.random() < 0.5
        nm = rng.choice([1, 2, 2, 3, 5])
        members = []
        bad = rng.choice([0, 0.1, 0.3, 0.6])
        for i in range(nm):
            oc = []
            for _ in range(rng.randrange(1, 9)):
                r = rng.random()
                oc.append(rng.choice(['early', 'late']) if r < bad else
                          rng.choice(['ok', 'ok', 'ok', 'slow', 'tuple', 'array']))
            members.append({'name': 'Tom,Dick,Ann,Eve,Joe'.split(',')[i], 'outcomes': oc,
                            'real': rng.random() < 0.25, 'cost': rng.choice([None, 'each', 'label', 'zero']),
                            'missing': rng.choice([0, 0, 0.3])})
        pools = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randrange(3, 26 if tier == 'thorough' else 16)):
                r = rng.random()
                idx = {'form': rng.choice(['one', 'list', 'list', 'array', 'bad']),
                       'i': [rng.randrange(8) for _ in range(rng.choice([1, 1, 2, 3]))], 'lab': rng.randrange(4)}
                if r < 0.35:
                    ops.append(['from', rng.randrange(nm), idx])
                elif r < 0.45:
                    ops.append(['any', None, idx])
                elif r < 0.65:
                    ops.append(['all', None, idx])
                elif r < 0.85:
                    ops.append(['some', [rng.randrange(nm) for _ in range(rng.choice([1, 2, 2, 3]))], idx])
                elif r < 0.9:
                    ops.append(['nobody', None, idx])
                else:
                    ops.append(['join', rng.randrange(nm), None])
            pools.append({'ops': ops, 'first': sorted(rng.sample(range(nm), rng.randrange(1, nm + 1)))})
        return {'multi': multi, 'reuse': rng.random() < 0.5, 'k': rng.choice([2, 3]), 'members': members, 'pools': pools, 'seed': rng.randrange(1 << 30),
                'params': W.gen_params(rng)}

    def shrink(self, p):
        for i in range(len(p['pools'])):
            if len(p['pools']) > 1:
                q = dict(p)
                q['pools'] = p['pools'][:i] + p['pools'][i + 1:]
                yield q
            ops = p['pools'][i]['ops']
            for size in (len(ops) // 2, 1):
                if size < 1:
                    continue
                for j in range(0, len(ops), size):
                    q = dict(p)
                    q['pools'] = list(p['pools'])
                    q['pools'][i] = dict(p['pools'][i], ops=ops[:j] + ops[j + size:])
                    if q['pools'][i]['ops']:
                        yield q

    def make_members(self, plan):
        rng = np.random.RandomState(plan['seed'] % (1 << 31))
        out = []
        for m in plan['members']:
            n, k = 8, plan['k']
            keep = [i for i in range(n) if rng.rand() >= m['missing']] or [0]
            if plan['multi']:
                y = (rng.rand(len(keep), k) < 0.5).astype(int)
                cost = {None: None, 'each': np.round(rng.rand(len(keep), k) * 5, 2), 'label': np.round(rng.rand(k) * 5, 2),
                        'zero': np.zeros((len(keep), k))}[m['cost']]
                o = OracleQueryMultiLabel(y, indexes=keep, cost=cost)
            else:
                y = rng.randint(0, 3, len(keep))
                cost = {None: None, 'each': np.round(rng.rand(len(keep)) * 5, 2), 'label': list(range(len(keep))),
                        'zero': np.zeros(len(keep))}[m['cost']]
                o = Oracle(y, indexes=keep, cost=cost)
            out.append(o if m['real'] else Member(o, m))
        return out

    def index(self, plan, d):
        i = d['i']
        k = plan['k']
        if d['form'] == 'bad':
            return [(99,), (0,)] if plan['multi'] else [0, 99]
        if plan['multi']:
            def one(x, j):
                return [(x,), (x, j % k), (x, [j % k, (j + 1) % k])][(j + x) % 3]
            if d['form'] == 'one':
                return one(i[0], d['lab'])
            return [one(x, d['lab'] + n) for n, x in enumerate(i)]
        if d['form'] == 'one':
            return i[0]
        return np.array(i) if d['form'] == 'array' else list(i)

    def execute(self, plan, ctx):
        names = [m['name'] for m in plan['members']]
        with S.quiet():
            members = self.make_members(plan)

        def pool_body(p, sim):
            pl = plan['pools'][p]
            pool = Oracles()
            inside = []
            for i in pl['first']:
                pool.add_oracle(names[i], members[i])
                inside.append(names[i])
            hist = []                  # what really was answered: (names, results, index)
            broken = False

            def audit(what):
                h = pool.query_history
                if len(h) != len(hist):
                    ctx.violate('history', 'pool %d: %s the history has %d entries although %d queries were answered'
                                % (p, what, len(h), len(hist)))
                    return
                for n, (a, b) in enumerate(zip(hist, h)):
                    b = (list(b[0]), [W.canon(r[0]) for r in b[1]], [W.canon(r[1]) for r in b[1]], W.canon(b[2]))
                    a = (a[0], [W.canon(r[0]) for r in a[1]], [W.canon(r[1]) for r in a[1]], W.canon(a[2]))
                    if a != b:
                        ctx.violate('history', 'pool %d: %s entry %d of the history is %s but %s was answered'
                                    % (p, what, n, W.short(b), W.short(a)))
                        return
                want = sum(total(a[1]) for a in hist)
                if not abs(float(pool.cost_inall) - want) < 1e-6:
                    ctx.violate('cost', 'pool %d: %s the total cost is %s, the answers cost %s'
                                % (p, what, pool.cost_inall, want))
                per = {n: [0, 0.0] for n in inside}
                for a in hist:
                    for n, r in zip(a[0], a[1]):
                        per[n][0] += 1
                        per[n][1] += total([r])
                got = {}
                for c in rows(repr(pool)):
                    if c and c[0] in per:
                        try:
                            got[c[0]] = (int(c[1]), float(c[2]))
                        except (ValueError, IndexError):
                            got[c[0]] = None
                for n in inside:
                    if got.get(n) is None or got[n][0] != per[n][0] or abs(got[n][1] - per[n][1]) > 1e-4 * (1 + per[n][1]):
                        ctx.violate('summary', 'pool %d: %s the summary says %s for %s who answered %d times for %s'
                                    % (p, what, got.get(n), n, per[n][0], per[n][1]))
                        return

            for op in pl['ops']:
                with S.quiet():
                    idx = self.index(plan, op[2]) if op[2] else None
                    asked = None
                    if op[0] == 'join':
                        nm = names[op[1]]
                        if nm in inside:
                            continue
                    elif op[0] == 'from':
                        asked = [names[op[1]]]
                    elif op[0] == 'some':
                        asked = [names[i] for i in op[1]]
                    elif op[0] == 'all':
                        asked = list(inside)
                    elif op[0] == 'nobody':
                        asked = ['Nobody']
                if op[0] == 'join':
                    pool.add_oracle(nm, members[op[1]])
                    inside.append(nm)
                    continue
                me = threading.get_ident()
                for m in members:
                    if isinstance(m, Member):
                        m.log.pop(me, None)
                err = None
                got_each = []
                try:
                    if op[0] in ('from', 'nobody'):
                        res = [pool.query_from(idx, oracle_name=asked[0])]
                    elif op[0] == 'any':
                        res = [pool.query_from(idx)]
                    elif op[0] == 'all':
                        res = pool.query_from_s(idx)
                    else:
                        res = pool.query_from_s(idx, oracles_name=asked)
                except (S.SimAbort, S.HarnessError):
                    raise
                except Exception as e:
                    err = e
                with S.quiet():
                    if err is None:
                        if op[0] == 'any':
                            who = [n for n in inside if isinstance(members[names.index(n)], Member)
                                   and me in members[names.index(n)].log]
                            if not who and len(pool.query_history) == len(hist) + 1:
                                who = list(pool.query_history[-1][0])
                            asked = who
                        if len(asked) != len(res):
                            ctx.violate('answers', 'pool %d: %d answers from %d labellers' % (p, len(res), len(asked)))
                            return
                        for n, r in zip(asked, res):
                            m = members[names.index(n)]
                            if asked.count(n) > 1:
                                continue                    # its log holds only the last answer
                            true = m.log.get(me) if isinstance(m, Member) else m.query_by_index(idx)
                            if true is None or W.canon(list(r)) != W.canon(list(true)):
                                ctx.violate('answers', 'pool %d: %s answered %s but the caller got %s'
                                            % (p, n, W.short(true), W.short(r)))
                                return
                        hist.append((asked, copy.deepcopy(res), copy.deepcopy(idx)))
                        ctx.probe('answered')
                        if plan.get('reuse'):
                            # the caller goes on to use the answer and the index as its own
                            W.maul([list(r) for r in res])
                            W.maul(idx)
                    else:
                        ctx.probe('raised_' + type(err).__name__)
                        if hist:
                            broken = True
                        # nobody can tell a failure of the pool from that of a labeller but by the kind of error
                        if not isinstance(err, (Refused, IOError, KeyError)):
                            ctx.violate('error', 'pool %d: a query raised %s: %s' % (p, type(err).__name__, str(err)[:100]))
                            return
                        err = None
                    audit('after %s' % ('a query' if err is None else 'a failed query'))
                    if ctx.violations:
                        return
            with S.quiet():
                try:
                    t = pool.full_history()
                except Exception as e:
                    ctx.violate('full-history', 'pool %d: full_history raised %s: %s' % (p, type(e).__name__, e))
                    return
                # the last column counts the answers of each labeller
                left = {n: sum(a[0].count(n) for a in hist) for n in inside}
                for c in rows(t):
                    if c[0] in left and c[-1].isdigit():
                        # a labeller asked twice in one query shows twice in the count
                        if int(c[-1]) != left.pop(c[0]):
                            ctx.violate('full-history', 'pool %d: wrong count for %s in the full history' % (p, c[0]))
                            return
                if left:
                    ctx.violate('full-history', 'pool %d: %s missing in the full history' % (p, sorted(left)))
            if broken:
                ctx.probe('nontrivial')

        def main(sim):
            if len(plan['pools']) == 1:
                pool_body(0, sim)
                return
            ths = [threading.Thread(target=pool_body, args=(i, sim)) for i in range(len(plan['pools']))]
            for th in ths:
                th.start()
            for th in ths:
                th.join()

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        if sim.thread_errors:
            ctx.violate('error', 'an operation raised: %s' % (sim.thread_errors[0],))
        ctx.trivial = not ctx.probes.get('nontrivial')


CHECK = C16
