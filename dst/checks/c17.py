"""C17: labels, costs and indexes stay conserved over a whole faulty labelling session."""
import copy
import os
import threading
import time

import numpy as np

from alipy import ToolBox
from alipy.experiment import State, StateIO
from alipy.index import IndexCollection
from alipy.oracle import ElementRepository, MatrixRepository, Oracle, OracleQueryMultiLabel, Oracles
from alipy.utils.interface import BaseVirtualOracle

from .. import sim as S
from .. import work as W
from ..runner import Check

KINDS = ('enospc', 'eio', 'short', 'torn_enospc', 'full', 'open_emfile', 'open_eio', 'close_eio', 'rename_eio')
BAD = ('no-example', 'short-labels', 'short-cost', 'short-examples', 'bad-cost', 'none-example', 'wrong-label',
       'wrong-example')


class Refused(Exception):
    pass


class Labeller(BaseVirtualOracle):
    """A labeller in front of a real oracle: slow, refusing, or failing after it answered."""

    def __init__(self, inner, outcomes):
        self.inner = inner
        self.outcomes = outcomes
        self.calls = 0

    def _do(self, q, by_example=False):
        sim = S.SIM
        with S.quiet():
            do = self.outcomes[self.calls % len(self.outcomes)] if self.outcomes else 'ok'
            self.calls += 1
        sim.seam('user')
        if do == 'slow':
            time.sleep(5)
        if do == 'early':
            sim.fault_counts['labeller_failed'] = sim.fault_counts.get('labeller_failed', 0) + 1
            raise Refused('no')
        r = self.inner.query_by_example(q) if by_example else self.inner.query_by_index(q)
        sim.seam('user')
        if do == 'late':
            sim.fault_counts['labeller_failed'] = sim.fault_counts.get('labeller_failed', 0) + 1
            raise IOError('connection to the labeller lost')
        return r

    def query_by_index(self, indexes):
        return self._do(indexes)

    def query_by_example(self, ex):
        return self._do(ex, True)


class World(object):
    """Data, truth and initial split of a plan."""

    def __init__(self, plan):
        self.plan = plan
        rng = np.random.RandomState(plan['seed'] % (1 << 31))
        n, k = plan['n'], plan['k']
        self.pairs = plan['kind'] == 'pairs'
        self.base = 0 if plan['toolbox'] else plan['base']
        self.X = np.round(rng.rand(n, plan['d']) * 10, 3) + np.arange(n)[:, None] * 10
        if plan['twins'] and n > 4:
            self.X[3] = self.X[1]
        kind = plan['kind']
        if kind in ('vector', 'pairs'):
            self.y = rng.randint(0, 2, (n, k))
        elif plan['ytype'] == 'str':
            self.y = np.array(['cls-%d' % v for v in rng.randint(0, 4, n)])
        elif plan['ytype'] == 'float':
            self.y = np.round(rng.rand(n), 3)
        else:
            self.y = rng.randint(0, 5, n)
        self.cost = None
        if plan['cost']:
            c = np.round(rng.rand(n, k) * 5 + 0.25, 2) if kind in ('vector', 'pairs') else np.round(rng.rand(n) * 5 + 0.25, 2)
            self.cost = c

    def item(self, pos):
        if self.pairs:
            return (pos // self.plan['k'], pos % self.plan['k'])
        return pos + self.base

    def all_items(self):
        if self.pairs:
            return [(r, c) for r in range(self.plan['n']) for c in range(self.plan['k'])]
        return [i + self.base for i in range(self.plan['n'])]

    def init_labeled(self, fold):
        its = self.all_items()
        nl = self.plan['nl']
        o = (fold * 2) % (len(its) - nl)
        return its[o:o + nl]

    def example(self, it):
        return self.X[it[0]] if self.pairs else self.X[it - self.base]

    def label(self, it):
        return self.y[it[0], [it[1]]] if self.pairs else self.y[it - self.base]

    def true_cost(self, it):
        if self.cost is None:
            return float(self.plan['k']) if self.plan['kind'] == 'vector' else 1.0
        return float(self.cost[it]) if self.pairs else float(np.sum(self.cost[it - self.base]))

    def oracle(self):
        rows = None if self.pairs else [i + self.base for i in range(self.plan['n'])]
        ex = self.X if self.plan['by_example'] else None
        if self.plan['kind'] in ('vector', 'pairs'):
            return OracleQueryMultiLabel(self.y, examples=ex, indexes=rows, cost=self.cost)
        return Oracle(self.y, examples=ex, indexes=rows, cost=self.cost)

    def stateio(self, fold, path):
        init = self.init_labeled(fold)
        un = [i for i in self.all_items() if i not in init]
        return StateIO(fold, list(range(self.plan['n'])), [900, 901], init, un, saving_path=path, verbose=False)

    def repository(self, fold):
        init = self.init_labeled(fold)
        C = MatrixRepository if self.plan['repo'] == 'matrix' else ElementRepository
        ex = [self.example(i) for i in init] if self.plan['examples'] else None
        lab = [self.label(i) for i in init]
        if self.plan['arrays'] and not self.pairs:
            lab = np.array(lab)
            ex = np.array(ex) if ex is not None else None
        if not self.plan.get('reuse'):
            return C(labels=lab, indexes=init, examples=ex)
        mine = copy.deepcopy((lab, init if self.pairs else np.array(init), ex))
        repo = C(labels=mine[0], indexes=mine[1], examples=mine[2])
        W.maul(mine)
        return repo


class Ledger(object):
    """The reference: what the repository of a session was told."""

    def __init__(self, world, fold):
        self.items = {i: copy.deepcopy(world.label(i)) for i in world.init_labeled(fold)}
        self.order = None
        self.cost = 0.0
        self.queries = 0


def lab(v):
    """Canonical label: a one-element vector is that element."""
    c = W.canon(v)
    while isinstance(c, tuple) and c and c[0] == 'seq' and len(c) == 2:
        c = c[1]
    if isinstance(c, (int, float)) and not isinstance(c, bool):
        c = float(c)
    if isinstance(c, tuple):
        c = tuple(float(x) if isinstance(x, (int, float)) else x for x in c)
    return c


def exa(v):
    return tuple(round(float(x), 6) for x in np.ravel(v))


class Session(object):
    def __init__(self, ctx, plan, world, fold, path):
        self.ctx, self.plan, self.world, self.fold, self.path = ctx, plan, world, fold, path
        self.acked = None          # canonical record of the last save that returned
        self.pend = None
        self.steps_done = 0
        self.changes = 0

    def bad(self, cls, msg):
        self.ctx.violate(cls, 'session %d: %s' % (self.fold, msg))

    # -- repository against the ledger
    def audit(self, repo, led, what):
        """All a user can see of the repository agrees with what was recorded."""
        w = self.world
        X, y, ind = repo.get_training_data()
        ids = [tuple(i) if w.pairs else W.canon(i) for i in (ind.tolist() if hasattr(ind, 'tolist') else list(ind))]
        if len(set(ids)) != len(ids):
            self.bad('twice', '%s the repository holds an item twice: %s' % (what, W.short(ids)))
            return False
        if set(ids) != set(led.items):
            self.bad('items', '%s the repository holds %s, extra %s, missing %s' % (
                what, len(ids), sorted(set(ids) - set(led.items)), sorted(set(led.items) - set(ids))))
            return False
        if len(y) != len(ids) or (self.plan['examples'] and len(X) != len(ids)):
            self.bad('consistent', '%s the training data has %d indexes, %d labels and %s examples'
                     % (what, len(ids), len(y), len(X) if X is not None else None))
            return False
        for n, i in enumerate(ids):
            if lab(y[n]) != lab(led.items[i]):
                self.bad('label', '%s item %s has the label %s, %s was recorded' % (what, i, y[n], led.items[i]))
                return False
            if self.plan['examples'] and exa(X[n]) != exa(w.example(i)):
                self.bad('example', '%s item %s has the example %s instead of %s' % (what, i, exa(X[n]), exa(w.example(i))))
                return False
        # single look-ups
        probe = ids[:2] + ids[-3:]
        for i in probe:
            if i not in repo:
                self.bad('contains', '%s item %s is not found in the repository' % (what, i))
                return False
            for q in (i, [i]):
                rx, ry = repo.retrieve_by_indexes(q)
                if lab(ry) != lab(led.items[i]):
                    self.bad('retrieve', '%s looking up item %s gives %s instead of %s' % (what, i, W.short(ry), led.items[i]))
                    return False
                if self.plan['examples'] and exa(rx) != exa(w.example(i)):
                    self.bad('retrieve', '%s looking up item %s gives the example %s' % (what, i, W.short(rx)))
                    return False
        if len(probe) > 1:
            qs = list(probe)
            rx, ry = repo.retrieve_by_indexes(qs)
            if len(ry) != len(qs) or [lab(v) for v in ry] != [lab(led.items[i]) for i in qs]:
                self.bad('retrieve', '%s looking up %s gives %s' % (what, qs, W.short(ry)))
                return False
        if self.plan['examples']:
            for i in probe:
                if w.pairs or (self.plan['twins'] and i - w.base in (1, 3)):
                    continue
                e = w.example(i)
                got = repo.retrieve_by_examples(np.array([e]))
                if lab(got[1]) != lab(led.items[i]):
                    self.bad('retrieve', '%s looking up the example of item %s gives %s instead of %s'
                             % (what, i, W.short(got[1]), led.items[i]))
                    return False
        for i in w.all_items():
            if i not in led.items and i in repo:
                self.bad('contains', '%s item %s is said to be in the repository' % (what, i))
                return False
        if self.plan.get('reuse'):
            # what was handed out belongs to the caller
            W.maul((X, y, ind))
            for i in probe:
                W.maul(repo.retrieve_by_indexes(i))
                W.maul(repo.retrieve_by_indexes([i]))
                if self.plan['examples']:
                    W.maul(repo.retrieve_by_examples(np.array([w.example(i)])))
                    W.maul(repo.retrieve_by_examples(np.array(w.example(i))))
        if abs(float(repo.cost_inall) - led.cost) > 1e-6:
            self.bad('cost', '%s the total cost of the repository is %s, %s was recorded' % (what, repo.cost_inall, led.cost))
            return False
        if repo.num_of_queries != led.queries:
            self.bad('count', '%s the repository counts %s queries, %s were recorded' % (what, repo.num_of_queries, led.queries))
            return False
        try:
            repo.full_history()
        except Exception as e:
            self.bad('history', '%s the history cannot be shown: %s %s' % (what, type(e).__name__, e))
            return False
        return True

    def audit_io(self, io, rec, what):
        n = len(rec)
        cost = sum(r[2] for r in rec)
        if io.num_of_query() != n or len(io) != n:
            self.bad('record', '%s the record has %d queries instead of %d' % (what, io.num_of_query(), n))
            return False
        if abs(float(io.cost_inall) - cost) > 1e-6:
            self.bad('record', '%s the record has the cost %s instead of %s' % (what, io.cost_inall, cost))
            return False
        _, _, L, U = io.get_workspace()
        want = set(self.world.init_labeled(self.fold))
        for r in rec:
            want.update(r[0])
        Ls, Us = set(W.canon_items(L)), set(W.canon_items(U))
        al = set(W.canon(i) for i in self.world.all_items())
        want = set(W.canon(i) for i in want)
        if Ls != want or Us != al - want:
            self.bad('record', '%s the workspace of the record does not follow from its queries' % what)
            return False
        return True

    # -- resumption
    def snapshot(self):
        return (self.acked, self.pend, self.steps_done)

    def read_record(self, io):
        out = []
        for i in range(len(io)):
            st = io.get_state(i)
            its = [W.canon(x) for x in self._list(st.get_value('select_index'))]
            its = [tuple(x[1:]) if self.world.pairs else x for x in its]
            out.append((tuple(its), tuple(lab(v) for v in st.get_value('queried_label')),
                        round(float(np.sum([np.sum(c) for c in st.get_value('cost')])), 6)))
        return tuple(out)

    @staticmethod
    def _list(v):
        return list(v.index) if hasattr(v, 'index') and not isinstance(v, (list, np.ndarray)) else list(v)

    def begin(self, resume=None):
        """(io, repo, ledger, record) of a new or a resumed session."""
        w = self.world
        if resume is None or not os.path.exists(self.path):
            if resume is not None and resume[0] is not None:
                self.bad('lost', 'the checkpoint is gone after a kill')
                return None
            if self.tb is not None:
                io = self.tb.get_stateio(0, saving_path=self.path, verbose=False)
                repo = self.tb.get_repository(0, instance_flag=self.plan['examples'])
            else:
                io = w.stateio(self.fold, self.path)
                repo = w.repository(self.fold)
            return io, repo, Ledger(w, self.fold), []
        try:
            io = StateIO.load(self.path)
        except Exception as e:
            self.bad('lost', 'the checkpoint cannot be loaded after a kill: %s %s' % (type(e).__name__, e))
            return None
        rec = self.read_record(io)
        if rec not in (resume[0], resume[1]):
            self.bad('lost', 'after a kill the checkpoint holds %d queries: neither the last acknowledged record (%s) nor '
                     'the one in progress' % (len(rec), None if resume[0] is None else len(resume[0])))
            return None
        if not self.audit_io(io, rec, 'after a kill'):
            return None
        repo = w.repository(self.fold) if self.tb is None else self.tb.get_repository(0, instance_flag=self.plan['examples'])
        led = Ledger(w, self.fold)
        for n in range(len(io)):
            st = io.get_state(n)
            its = list(rec[n][0])
            labels, cost = st.get_value('queried_label'), st.get_value('cost')
            repo.update_query(labels=labels, indexes=its, cost=cost,
                              examples=[w.example(i) for i in its] if self.plan['examples'] else None)
            for i, l in zip(its, labels):
                led.items[i] = copy.deepcopy(l)
            led.cost += rec[n][2]
            led.queries += 1
        self.acked = rec
        if not self.audit(repo, led, 'after a kill and rebuilding it from the checkpoint'):
            return None
        if abs(float(repo.cost_inall) - float(io.cost_inall)) > 1e-6 or repo.num_of_queries != io.num_of_query():
            self.bad('disagree', 'after a kill repository and record differ in cost or count: %s/%s and %s/%s' % (
                repo.cost_inall, repo.num_of_queries, io.cost_inall, io.num_of_query()))
            return None
        return io, repo, led, list(rec)

    # -- the loop
    def body(self, sim, oracle, pool, resume=None, start=0):
        w, plan = self.world, self.plan
        self.tb = self.toolbox() if plan['toolbox'] else None
        with S.quiet():
            got = self.begin(resume)
            if got is None:
                return
            io, repo, led, rec = got
            if not self.audit(repo, led, 'at the beginning'):
                return
        pooled = [0, 0.0]
        me = sim.me()
        for sn in range(start, len(plan['steps'][self.fold])):
            st = plan['steps'][self.fold][sn]
            self.steps_done = sn
            with S.quiet():
                _, _, L, U = io.get_workspace()
                un = sorted(tuple(x) if w.pairs else W.canon(x) for x in U)
            op = st['op']
            if op == 'discard':
                if not self.discard(repo, led, st):
                    return
                continue
            if op == 'again':
                if not self.again(repo, led, st):
                    return
                continue
            if not un:
                break
            its = []
            for p in st['pick']:
                i = un[p % len(un)]
                if i not in its:
                    its.append(i)
            if st['form'] == 'coll' and not w.pairs:
                its = [int(i) for i in IndexCollection(its)]      # in the collection's own order
            # --- ask
            try:
                labels, cost = self.ask(oracle, pool, its, st, pooled)
            except (Refused, IOError):
                with S.quiet():
                    self.changes += 1
                    if not (self.audit(repo, led, 'after a labeller failed') and self.audit_pool(pool, pooled)):
                        return
                continue
            with S.quiet():
                want = [lab(w.label(i)) for i in its]
                if [lab(v) for v in labels] != want or abs(sum(float(np.sum(c)) for c in cost)
                                                           - sum(w.true_cost(i) for i in its)) > 1e-6:
                    self.bad('answer', 'asking for %s gave %s at the cost %s' % (its, W.short(labels), W.short(cost)))
                    return
                if not self.audit_pool(pool, pooled):
                    return
            # --- rejected updates
            for b in st['bad']:
                if not self.reject(repo, led, its, labels, cost, b, st):
                    return
            # --- the update
            kw = self.update_args(its, labels, cost, st)
            if op == 'add':
                for n, i in enumerate(its):
                    repo.add(label=labels[n], select_index=i, cost=cost[n],
                             example=w.example(i) if plan['examples'] else None)
            elif plan.get('reuse'):
                # the caller uses its buffers again
                kw = copy.deepcopy(kw)
                repo.update_query(**kw)
                W.maul(kw)
            else:
                repo.update_query(**kw)
            with S.quiet():
                c = sum(float(np.sum(x)) for x in cost)
                for i, v in zip(its, labels):
                    led.items[i] = copy.deepcopy(v)
                led.cost += c
                if op != 'add':
                    led.queries += 1
                if not self.audit(repo, led, 'after recording %s' % its):
                    return
            # --- the record
            io.add_state(State(list(its) if st['form'] != 'array' or w.pairs else np.array(its), 0.5 + sn / 100.0,
                               queried_label=labels, cost=cost))
            with S.quiet():
                rec.append((tuple(its), tuple(lab(v) for v in labels), round(c, 6)))
                if not self.audit_io(io, rec, 'after recording %s' % its):
                    return
                if op == 'add':
                    self.odd = True
                elif not getattr(self, 'odd', False) and (
                        abs(float(repo.cost_inall) - float(io.cost_inall)) > 1e-6
                        or repo.num_of_queries != io.num_of_query()):
                    self.bad('disagree', 'repository and record differ in cost or count: %s/%s and %s/%s' % (
                        repo.cost_inall, repo.num_of_queries, io.cost_inall, io.num_of_query()))
                    return
            if st['save']:
                if not self.save(sim, io, rec, me):
                    return
            with S.quiet():
                self.steps_done = sn + 1
            sim.disk.crash_point('between')
        with S.quiet():
            sim.disk.immune.add(me.id)
            sim.disk.full = False
        if not self.save(sim, io, rec, me):
            return
        sim.disk.immune.discard(me.id)
        self.steps_done = len(plan['steps'][self.fold])
        with S.quiet():
            self.audit(repo, led, 'at the end')

    def toolbox(self):
        w = self.world
        with S.quiet():
            init = w.init_labeled(self.fold)
            un = [i for i in w.all_items() if i not in init]
            return ToolBox(X=w.X, y=w.y, query_type='AllLabels', saving_path=None,
                           train_idx=[list(range(self.plan['n']))], test_idx=[[0]], label_idx=[list(init)],
                           unlabel_idx=[un])

    def ask(self, oracle, pool, its, st, pooled):
        w = self.world
        if pool is not None:
            r = pool.query_from(list(its), oracle_name='Ann')
            pooled[0] += 1
            pooled[1] += sum(float(np.sum(c)) for c in r[1])
            return r
        if self.plan['by_example'] and st['by_example'] and not w.pairs and not self.plan['twins'] \
                and self.plan['kind'] != 'vector':
            return oracle.query_by_example(np.array([w.example(i) for i in its]))
        if w.pairs or self.plan['kind'] == 'vector':
            return oracle.query_by_index(list(its) if w.pairs else [(i,) for i in its])
        if st['form'] == 'single' and len(its) == 1:
            return oracle.query_by_index(its[0])
        if st['form'] == 'array':
            return oracle.query_by_index(np.array(its))
        if st['form'] == 'coll':
            return oracle.query_by_index(IndexCollection(its))
        return oracle.query_by_index(list(its))

    def audit_pool(self, pool, pooled):
        if pool is None:
            return True
        if len(pool.query_history) != pooled[0] or abs(float(pool.cost_inall) - pooled[1]) > 1e-6:
            self.bad('pool', 'the pool records %d queries for %s, %d were answered for %s'
                     % (len(pool.query_history), pool.cost_inall, pooled[0], pooled[1]))
            return False
        return True

    def update_args(self, its, labels, cost, st):
        w = self.world
        ex = [w.example(i) for i in its] if self.plan['examples'] else None
        kw = dict(labels=labels, indexes=list(its), cost=cost, examples=ex)
        if st['form'] == 'array' and not w.pairs:
            kw = dict(labels=np.array(labels), indexes=np.array(its), cost=np.array(cost),
                      examples=None if ex is None else np.array(ex))
        elif st['form'] == 'coll' and not w.pairs:
            kw['indexes'] = IndexCollection(list(its))
        elif st['form'] == 'single' and len(its) == 1 and self.plan['kind'] == 'scalar':
            kw.update(labels=labels[0], indexes=its[0], cost=cost[0])
        return kw

    def reject(self, repo, led, its, labels, cost, b, st):
        """Malformed updates are refused and leave the repository as it was."""
        w, plan = self.world, self.plan
        matrix = plan['repo'] == 'matrix'
        kw = dict(labels=list(labels), indexes=list(its), cost=list(cost),
                  examples=[w.example(i) for i in its] if plan['examples'] else None)
        many = len(its) > 1
        if b == 'no-example':
            if not plan['examples']:
                return True
            kw['examples'] = None
        elif b == 'short-labels':
            kw['labels'] = kw['labels'][:-1] if many else kw['labels'] * 2
        elif b == 'short-cost':
            kw['cost'] = kw['cost'][:-1] if many else kw['cost'] * 2
        elif b == 'short-examples':
            if not plan['examples']:
                return True
            kw['examples'] = kw['examples'][:-1] if many else kw['examples'] * 2
        elif b == 'bad-cost':
            kw['cost'][-1] = 'not a number'
        elif b == 'none-example':
            if not plan['examples']:
                return True
            kw['examples'][-1] = None
        elif b == 'wrong-label':
            if not matrix:
                return True
            kw['labels'][-1] = [1, 0] if plan['kind'] == 'scalar' else [1] * (plan['k'] + 1)
        elif b == 'wrong-example':
            if not plan['examples']:
                return True
            kw['examples'][-1] = np.append(w.example(its[-1]), 1.0) if matrix else 3.5
        sim = S.SIM
        sim.fault_counts['malformed_update'] = sim.fault_counts.get('malformed_update', 0) + 1
        err = None
        try:
            repo.update_query(**kw)
        except (S.SimAbort, S.HarnessError):
            raise
        except Exception as e:
            err = e
        with S.quiet():
            self.changes += 1
            if err is None:
                self.bad('accepted', 'an update with %s was accepted' % b)
                return False
            return self.audit(repo, led, 'after an update with %s was rejected (%s)' % (b, type(err).__name__))

    def discard(self, repo, led, st):
        w = self.world
        with S.quiet():
            its = sorted(led.items)
            i = its[st['pick'][0] % len(its)]
            if len(its) < 3:
                return True
            twin = w.pairs or (self.plan['twins'] and i - w.base in (1, 3))
        if st['by_example'] and self.plan['examples'] and not twin:
            repo.discard(example=w.example(i))
        else:
            repo.discard(index=i)
        with S.quiet():
            led.items.pop(i)
            return self.audit(repo, led, 'after discarding item %s' % (i,))

    def again(self, repo, led, st):
        """Hand in an item which is already there (a retried update)."""
        w = self.world
        with S.quiet():
            its = sorted(led.items)
            i = its[st['pick'][0] % len(its)]
            v = w.label(i)
            matrix = self.plan['repo'] == 'matrix'
        repo.update_query(labels=[v], indexes=[i], examples=[w.example(i)] if self.plan['examples'] else None)
        with S.quiet():
            led.queries += 1
            self.odd = True
            return self.audit(repo, led, 'after handing in item %s again' % (i,))

    def save(self, sim, io, rec, me):
        with S.quiet():
            self.pend = tuple(rec)
            hurt = sum(sim.fault_counts.values()) - sim.fault_counts.get('crash', 0)
            since = len(sim.disk.files)
        err = None
        try:
            io.save()
        except (S.SimAbort, S.HarnessError):
            raise
        except Exception as e:
            err = e
        with S.quiet():
            sim.disk.mark_leaks(since, os.path.basename(self.path))
            sim.disk.finalise_leaked()
            if err is None:
                self.acked, self.pend = tuple(rec), None
            else:
                self.changes += 1
                now = sum(sim.fault_counts.values()) - sim.fault_counts.get('crash', 0)
                if now == hurt:
                    self.bad('save', 'saving raised without a fault: %s %s' % (type(err).__name__, err))
                    return False
            return self.audit_io(io, rec, 'after %s' % ('saving' if err is None else 'a failed save'))


class C17(Check):
    id = 'C17'
    title = 'labelling session'
    rule = ('A run = 1-3 labelling sessions (one thread each, sharing one oracle) of 3-14 steps over a real oracle or oracle '
            'pool, MatrixRepository or ElementRepository (scalar, text, vector labels or single labels of a multi-label '
            'item; with and without examples and costs; built directly or by a ToolBox), fold record and checkpoint file. '
            'Labellers refuse or fail after answering, updates are handed in malformed first (missing or short data, wrong '
            'label, example or cost in the last item of a batch), items are discarded and handed in again, saving meets '
            'disk errors, and the process is killed at seeded instants and resumed from the checkpoint. After every step '
            'all look-ups, training data, costs and counts are compared with a ledger. Non-trivial: something failed, '
            'was rejected or was resumed.')
    components = {'real': ['alipy.oracle repositories, oracles and pools', 'alipy.experiment.State/StateIO', 'alipy.ToolBox',
                           'pickle', 'threading.Thread'],
                  'stub': ['labellers (wrappers that fail, refuse or delay)', 'file writes (SimWriter over tmpfs)', 'clock',
                           'locks/scheduler']}
    assumptions = ['a repository is used by one thread; it lives in memory and is rebuilt from the checkpoint after a kill']
    quick_s = 30

    def gen_plan(self, rng, tier):
        kind = rng.choice(['scalar', 'scalar', 'vector', 'pairs'])
        repo = 'element' if kind == 'pairs' else rng.choice(['matrix', 'element'])
        ns = rng.choice([1, 1, 1, 2, 3])
        steps = []
        pb = rng.choice([0, 0.2, 0.6])
        for _ in range(ns):
            ss = []
            for _ in range(rng.randrange(3, 22 if tier == 'thorough' else 13)):
                op = rng.choice(['query'] * 12 + ['add', 'discard', 'again', 'discard'])
                ss.append({'op': op, 'pick': [rng.randrange(1000) for _ in range(rng.choice([1, 1, 2, 3]))],
                           'form': rng.choice(['list', 'list', 'array', 'coll', 'single']),
                           'by_example': rng.random() < 0.4, 'save': rng.random() < 0.7,
                           'bad': [rng.choice(BAD) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < pb else []})
            steps.append(ss)
        fp = {}
        if rng.random() < 0.5:
            for k in rng.sample(KINDS, rng.choice([1, 1, 2, 3])):
                fp[k] = rng.choice([0.02, 0.1, 0.3])
        bo = rng.choice([0, 0, 0.2, 0.5])
        crash = rng.random() < 0.6
        tb = kind == 'scalar' and repo == 'matrix' and rng.random() < 0.4
        return {'kind': kind, 'reuse': rng.random() < 0.4, 'repo': repo, 'n': rng.randrange(6, 24), 'k': rng.choice([2, 3]), 'd': rng.choice([1, 2, 4]),
                'nl': rng.randrange(1, 4), 'base': rng.choice([0, 0, 100, 7]), 'examples': rng.random() < 0.6,
                'by_example': rng.random() < 0.5, 'twins': rng.random() < 0.15, 'cost': rng.random() < 0.7,
                'ytype': rng.choice(['int', 'int', 'float', 'str']) if not tb else 'int', 'arrays': rng.random() < 0.5,
                'pool': rng.random() < 0.35 and kind != 'vector', 'toolbox': tb, 'steps': steps,
                'outcomes': [rng.choice(['early', 'late']) if rng.random() < bo else rng.choice(['ok', 'ok', 'ok', 'slow'])
                             for _ in range(rng.randrange(1, 8))],
                'seed': rng.randrange(1 << 30), 'depth': rng.choice([1, 2, 3]),
                'params': W.gen_params(rng, fault_p=fp, max_faults=rng.choice([1, 3, 100]), line_gap=rng.choice([0, 8, 40]),
                                       crash_p=rng.choice([0.05, 0.2, 0.5]) if crash else 0, max_crash=rng.choice([3, 8]))}

    def shrink(self, p):
        for f in range(len(p['steps'])):
            if len(p['steps']) > 1:
                q = dict(p)
                q['steps'] = p['steps'][:f] + p['steps'][f + 1:]
                yield q
            ss = p['steps'][f]
            for size in (len(ss) // 2, 1):
                if size < 1:
                    continue
                for j in range(0, len(ss), size):
                    q = dict(p)
                    q['steps'] = list(p['steps'])
                    q['steps'][f] = ss[:j] + ss[j + size:]
                    if q['steps'][f]:
                        yield q

    def execute(self, plan, ctx):
        root = ctx.root
        ns = len(plan['steps'])
        with S.quiet():
            world = World(plan)
        rng = ctx.rng('choose')

        def one(label, params, resume):
            keep = {}

            def main(sim):
                with S.quiet():
                    sess = [Session(ctx, plan, world, f, os.path.join(root, 'fold_%d.pkl' % f)) for f in range(ns)]
                    keep['s'] = sess
                    if resume:
                        for s, r in zip(sess, resume):
                            s.acked, s.pend, s.steps_done = r
                    sim.disk.image_state = lambda: [s.snapshot() for s in sess]
                    oracle = world.oracle()
                    lbl = Labeller(oracle, plan['outcomes'])
                    pools = []
                    for f in range(ns):
                        pool = None
                        if plan['pool']:
                            pool = Oracles()
                            pool.add_oracle('Ann', lbl)
                        pools.append(pool)

                def go(f):
                    r = resume[f] if resume else None
                    sess[f].body(sim, lbl, pools[f], resume=r, start=r[2] if r else 0)
                if ns == 1:
                    go(0)
                    return
                ths = [threading.Thread(target=go, args=(f,)) for f in range(ns)]
                for th in ths:
                    th.start()
                for th in ths:
                    th.join()

            _, sim = ctx.run(label, S.Params(**params), main)
            if sim.thread_errors:
                ctx.violate('error', 'an operation raised: %s' % (sim.thread_errors[0],))
            if any(s.changes for s in keep['s']):
                ctx.probe('faulty')
            return sim.disk.images

        images = one('main', plan['params'], None)
        for depth in range(plan['depth']):
            images = [i for i in images if i['state']]
            if ctx.violations or not images:
                break
            img = images[rng.randrange(len(images))]
            S.restore_dir(root, img['files'])
            ctx.probe('kills')
            images = one('resume%d' % depth, plan['params'], img['state'])
        ctx.trivial = not (ctx.probes.get('faulty') or ctx.probes.get('kills'))


CHECK = C17


def _warm_up():
    import pickle
    rng = __import__('random').Random(0)
    c = C17()
    for _ in range(40):
        w = World(c.gen_plan(rng, 'quick'))
        pickle.loads(pickle.dumps(w.stateio(0, None)))
        pickle.loads(pickle.dumps((w.label(w.all_items()[0]), np.float64(1.5), np.array([1.0]), [np.int64(3)])))


_warm_up()
