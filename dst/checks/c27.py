"""C27: folds that work with one toolbox are independent of each other."""
import copy
import os
import random
import threading

import numpy as np

from alipy import ToolBox
from alipy.experiment import StateIO

from .. import sim as S
from .. import toys as T
from .. import work as W
from ..runner import Check

KINDS = ['single', 'single', 'single', 'multi', 'part', 'feat']
QUERY_TYPE = {'single': 'AllLabels', 'multi': 'AllLabels', 'part': 'PartLabels', 'feat': 'Features'}


BODY = [None]       # the current run's fold function (aceThreading saves its target, which must be importable)


def target(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    BODY[0](round, (train_id, test_id, Lcollection, Ucollection, saver))


class Wrong(Exception):
    pass


def must(cond, text):
    if not cond:
        raise Wrong(text)


class Broken(Exception):
    """The failure of a fold (the user's own error)."""


class C27(Check):
    id = 'C27'
    title = 'folds of one toolbox are independent'
    rule = ('A run = one ToolBox (all query types, with and without a saving path) from which 2-4 folds take split, record, '
            'repository, oracle, stopping criterion, index collections and states, one after another, in threads, or through '
            'get_ace_threading, with preemption at seeded lines; folds change in place whatever they got, fail at seeded points '
            'and meet disk errors while saving; each fold keeps a log of all it observes, which must equal the log of that fold '
            'run alone on a toolbox of its own. Non-trivial: at least two folds made queries.')
    components = {'real': ['alipy.ToolBox and everything it hands out: StateIO, State, repositories, oracles, StoppingCriteria, '
                           'index collections, query strategies, aceThreading'],
                  'stub': ['scheduler', 'clocks', 'file writes', 'the choice of the items to query (seeded; part of the runs)']}
    assumptions = ['one thread per fold; the components of a fold are used by that fold only']
    quick_s = 35

    # ------------------------------------------------------------------ plans
    def gen_plan(self, rng, tier):
        kind = rng.choice(KINDS)
        nf = rng.choice([2, 2, 3, 4])
        how = rng.choice(['threads', 'threads', 'ace', 'sequence'])
        if how == 'ace' and kind == 'feat':
            how = 'threads'
        folds = []
        for i in range(nf):
            folds.append({'seed': rng.randrange(1 << 30), 'batch': rng.choice([1, 1, 2, 3]),
                          'stop': rng.choice([['num_of_queries', rng.randrange(1, 6)], ['num_of_queries', 3], ['cost_limit', rng.randrange(1, 9)],
                                              ['percent_of_unlabel', rng.choice([0.2, 0.5])], [None, None]]),
                          'repo': rng.random() < 0.8, 'examples': rng.random() < 0.5, 'byex': rng.random() < 0.3,
                          'maul': rng.choice([0, 0.3, 0.8]), 'save': rng.random() < 0.6, 'fail': rng.randrange(4) if rng.random() < 0.15 else None,
                          'strategy': rng.choice([None, None, 'QueryInstanceUncertainty', 'QueryInstanceRandom']),
                          'again': rng.random() < 0.4, 'peek': rng.choice([0, 0.3, 0.8]), 'look': rng.random() < 0.5, 'back': rng.random() < 0.2})
        return {'kind': kind, 'n': rng.choice([10, 14, 18]), 'd': rng.choice([2, 3]), 'k': rng.choice([2, 3]), 'seed': rng.randrange(1 << 30),
                'folds': folds, 'how': how, 'path': rng.random() < 0.7, 'cost': rng.random() < 0.5, 'late': rng.random() < 0.6,
                'share': rng.random() < 0.5, 'limit': rng.choice([None, 1, 2]),
                'params': W.gen_params(rng, fault_p={k: rng.choice([0.02, 0.1]) for k in rng.sample(
                    ['enospc', 'eio', 'rename_eio', 'open_eio'], 2)} if how != 'ace' and rng.random() < 0.4 else {},
                    max_faults=6, max_steps=300000, line_gap=rng.choice([2, 3, 4, 8, 8, 20]))}

    def shrink(self, p):
        if len(p['folds']) > 1:
            for i in range(len(p['folds'])):
                q = copy.deepcopy(p)
                del q['folds'][i]
                yield q
        for i, f in enumerate(p['folds']):
            for key, val in (('maul', 0), ('fail', None), ('save', False), ('again', False), ('repo', False), ('strategy', None),
                             ('back', False), ('look', False), ('batch', 1)):
                if f[key] != val:
                    q = copy.deepcopy(p)
                    q['folds'][i][key] = val
                    yield q
        for key, val in (('how', 'sequence'), ('path', False), ('cost', False), ('late', False)):
            if p[key] != val:
                q = copy.deepcopy(p)
                q[key] = val
                yield q

    # ------------------------------------------------------------------ the world
    def data(self, plan):
        rng = random.Random(plan['seed'])
        n = plan['n']
        X, y = T.blobs(rng, n, plan['k'], plan['d'])
        if plan['kind'] in ('multi', 'part'):
            y = np.array([[1 if rng.random() < 0.5 else 0 for _ in range(3)] for _ in range(n)])
        split = [[], [], [], []]
        for _ in range(4):                      # always the same, however many folds are used
            ids = list(range(n))
            rng.shuffle(ids)
            cut = n - 3
            tr, te = ids[:cut], ids[cut:]
            if plan['kind'] == 'single':
                first = [[i for i in tr if y[i] == c][0] for c in sorted(set(y[tr].tolist()))]
                tr = first + [i for i in tr if i not in first]
                L, U = tr[:len(first) + 1], tr[len(first) + 1:]
            elif plan['kind'] == 'multi':
                L, U = [(i,) for i in tr[:3]], [(i,) for i in tr[3:]]
            else:
                m = 3 if plan['kind'] == 'part' else plan['d']
                every = [(i, j) for i in tr for j in range(m)]
                L, U = every[:2 * m], every[2 * m:][:12]
            for a, b in zip(split, (tr, te, L, U)):
                a.append(b)
        cost = None
        if plan['cost']:
            shape = (n,) if plan['kind'] == 'single' else (n, plan['d'] if plan['kind'] == 'feat' else 3)
            cost = np.array([float(rng.randrange(1, 4)) for _ in range(int(np.prod(shape)))]).reshape(shape)
        return X, y, split, cost

    def toolbox(self, plan, path):
        X, y, split, cost = self.data(plan)
        kw = dict(zip(('train_idx', 'test_idx', 'label_idx', 'unlabel_idx'), split))
        tb = ToolBox(y=y, X=X, query_type=QUERY_TYPE[plan['kind']], saving_path=path, **kw)
        return tb, (X, y, split, cost)

    def own(self, plan, world, i, got, what):
        """The tables must be those of the fold."""
        _, _, split, _ = world
        must([int(v) for v in got[0]] == split[0][i] and [int(v) for v in got[1]] == split[1][i],
             'fold %d: %s: not the train and test indexes of this fold' % (i, what))
        for coll, want in ((got[2], split[2][i]), (got[3], split[3][i])):
            if plan['kind'] == 'multi':
                want = [(a, j) for a, in want for j in range(3)]
            must(sorted(coll) == sorted(want), 'fold %d: %s: not the labeled and unlabeled sets of this fold' % (i, what))

    # ------------------------------------------------------------------ one fold
    def fold(self, plan, tb, world, i, root, log, given=None, shared=None):
        f = plan['folds'][i]
        rng = random.Random(f['seed'])
        X, y, _, cost = world
        kind = plan['kind']

        def maul(v):
            if rng.random() < f['maul']:
                with S.quiet():
                    W.maul(v)

        def note(*what):
            with S.quiet():
                log.append(copy.deepcopy(what))
        if given is None:
            train, test, L, U = tb.get_split(i)
            saver = tb.get_stateio(i, verbose=False, saving_path=root)
        else:
            train, test, L, U, saver = given
        with S.quiet():
            self.own(plan, world, i, (train, test, L, U), 'split')
            self.own(plan, world, i, saver.get_workspace(0), 'record')
            must(saver.round == i and len(saver) == 0 and saver.cost_inall == 0, 'the record of fold %d is not a new one of it' % i)
        note('split', W.canon(train), W.canon(test), W.canon_items(L), W.canon_items(U), saver.round, len(saver))
        oracle = None
        if kind != 'part':
            oracle = tb.get_clean_oracle(query_by_example=f['byex'] and kind == 'single', cost_mat=None if cost is None else copy.deepcopy(cost))
        repo = None
        if f['repo'] and kind == 'single':
            repo = tb.get_repository(i, instance_flag=f['examples'])
            with S.quiet():
                ex, lab, idx = repo.get_training_data()
                must(sorted(int(v) for v in idx) == sorted(L) and [W.canon(v) for v in lab] == [W.canon(y[v]) for v in idx] and
                     (not f['examples'] or W.canon(np.asarray(ex)) == W.canon(X[np.asarray(idx)])),
                     'the repository of fold %d does not hold its labeled set' % i)
                note('repo', [W.canon(v) for v in repo.get_training_data()], W.canon(repo.num_of_queries), W.canon(repo.cost_inall))
        stop = tb.get_stopping_criterion(*f['stop'])
        if f['look']:
            whole = tb.get_split()
            note('whole', W.canon(whole))
            maul(whole[rng.randrange(4)][i])
        maul(train)
        maul(test)
        strategy = tb.get_query_strategy(f['strategy']) if f['strategy'] and kind == 'single' else None
        queries = 0
        kept = []
        while len(U) > 0 and queries < 8:
            with S.quiet():
                done = stop.is_stop()
            note('stop', done)
            if done:
                break
            if f['fail'] == queries:
                raise Broken()
            if rng.random() < f['peek']:
                # the toolbox goes on handing out the beginning of this fold
                what = rng.choice(['split', 'record', 'repo', 'copy'])
                if what == 'split':
                    again = tb.get_split(i)
                    with S.quiet():
                        self.own(plan, world, i, again, 'split taken later')
                        maul(again[0])
                elif what == 'record':
                    again = tb.get_stateio(i, verbose=False, saving_path=root)
                    with S.quiet():
                        self.own(plan, world, i, again.get_workspace(), 'record taken later')
                        must(again.round == i and len(again) == 0, 'fold %d: a record taken later is not new' % i)
                elif what == 'repo' and kind == 'single':
                    again = tb.get_repository(i, instance_flag=True)
                    with S.quiet():
                        must(sorted(int(v) for v in again.get_training_data()[2]) == sorted(world[2][2][i]),
                             'fold %d: a repository taken later does not hold the labeled set' % i)
                elif what == 'copy' and kind == 'single':
                    kept.append((tb.IndexCollection(L), sorted(L)))
            with S.quiet():
                order = sorted(U)
            if f['strategy'] == 'QueryInstanceUncertainty' and kind == 'single':
                model = T.ToyModel()
                model.fit(X[sorted(L)], y[sorted(L)])
                items = sorted(int(v) for v in strategy.select(L, U, model=model, batch_size=min(f['batch'], len(U))))
            elif strategy is not None:
                items = [int(v) for v in strategy.select(L, U, batch_size=min(f['batch'], len(U)))]
                note('random', len(set(items)), set(items) <= set(order))
                items = rng.sample(order, min(f['batch'], len(order)))
            else:
                items = rng.sample(order, min(f['batch'], len(order)))
            items = tb.IndexCollection(items).index if kind == 'single' else items
            if oracle is None:
                labels, costs = [int(y[a]) for a in items], [1] * len(items)
            elif f['byex'] and kind == 'single':
                # two instances alike would have one answer between them
                labels, costs = oracle.query_by_example([X[a] for a in items])
            else:
                labels, costs = oracle.query_by_index(items)
            if oracle is not None and not f['byex']:
                truth = [X[a] if kind == 'feat' else y[a] for a in items]
                must([float(np.ravel(v)[0]) for v in labels] == [float(v) for v in truth], 'fold %d gets wrong answers' % i)
            note('answer', [W.canon(v) for v in items], [W.canon(v) for v in labels], [W.canon(v) for v in costs])
            L.update(items)
            U.difference_update(items)
            if repo is not None:
                repo.update_query(labels=labels, indexes=items, cost=costs, examples=[X[a].copy() for a in items] if f['examples'] else None)
                note('repo', [W.canon(v) for v in repo.get_training_data()], W.canon(repo.num_of_queries), W.canon(repo.cost_inall))
            st = tb.State(items, round(rng.random(), 3), queried_label=copy.deepcopy(labels), cost=[float(np.sum(c)) for c in costs])
            st.add_element('fold', i)
            saver.add_state(st)
            for v in (labels, costs):
                maul(v)
            queries += 1
            if f['back'] and queries == 3:
                _, _, L, U = saver.recover_workspace(1)
                note('back', W.canon_items(L), W.canon_items(U))
            if f['save']:
                try:
                    saver.save()
                except OSError:
                    pass                        # the record is in memory still
            stop.update_information(saver)
            with S.quiet():
                note('record', W.canon_io(saver))
        if f['save'] and given is None:
            try:
                saver.save()
                with S.quiet():
                    files = [StateIO.load(os.path.join(root, v)) for v in sorted(os.listdir(root))
                             if v.endswith('.pkl') and v != 'al_settings.pkl']
                    must([W.canon_io(v) for v in files if v.round == i] == [W.canon_io(saver)],
                         'fold %d: its directory does not hold the record just saved' % i)
            except OSError:
                pass
        with S.quiet():
            must(all(sorted(a) == b for a, b in kept), 'fold %d: a copy of an index collection follows its original' % i)
            note('end', W.canon_io(saver))
        maul(L)
        maul(U)

    # ------------------------------------------------------------------ run
    def alone(self, plan, i, root):
        """The log of the fold, with a toolbox of its own and nobody else around."""
        box = {'log': []}
        tb, world = self.toolbox(plan, None)
        os.makedirs(root, exist_ok=True)
        try:
            self.fold(plan, tb, world, i, root, box['log'])
            box['how'] = 'returned'
        except Broken:
            box['how'] = 'failed'
        return box

    def execute(self, plan, ctx):
        nf = len(plan['folds'])
        calm = dict(plan['params'], fault_p={}, max_faults=0, line_gap=0)
        ref = []

        def reference(sim):
            for i in range(nf):
                try:
                    ref.append(self.alone(plan, i, os.path.join(ctx.root, 'ref%d' % i)))
                except Wrong as e:
                    ctx.violate('alone', 'a fold run alone: %s' % e)
                    return
        np.random.seed(plan['seed'] & 0xffffffff)
        ctx.run('reference', S.Params(**calm), reference, root=ctx.root)
        if ctx.violations:
            return
        got = [{'log': []} for _ in range(nf)]
        home = os.path.join(ctx.root, 'home')
        os.makedirs(home)

        def main(sim):
            me = sim.me()
            sim.disk.immune.add(me.id)
            if plan['how'] == 'ace':
                sim.params.fault_p = {}
            path = os.path.join(home, 'al_settings.pkl') if plan['path'] else None
            tb, world = self.toolbox(plan, path)
            with S.quiet():
                before = self.seen(tb, world)

            def body(i, given=None):
                if i >= nf:
                    return                      # the toolbox holds four folds
                sim.disk.immune.discard(sim.me().id)
                box = got[i]
                root = home if plan['path'] and plan['share'] else os.path.join(ctx.root, 'fold%d' % i)
                os.makedirs(root, exist_ok=True)
                try:
                    self.fold(plan, tb, world, i, root, box['log'], given)
                    box['how'] = 'returned'
                except Broken:
                    box['how'] = 'failed'
                except S.SimAbort:
                    raise
                except Exception as e:
                    box['how'] = 'raised'
                    box['error'] = '%s: %s' % (type(e).__name__, str(e)[:120])
                finally:
                    sim.disk.immune.add(me.id)

            if plan['how'] == 'ace':
                ace = os.path.join(ctx.root, 'ace')
                os.makedirs(ace)
                kw = {} if plan['limit'] is None else {'max_thread': plan['limit']}
                at = tb.get_ace_threading(target_function=target, refresh_interval=1000.0, saving_path=ace, **kw)
                BODY[0] = body
                at.start_all_threads(global_parameters=None)
            elif plan['how'] == 'threads':
                ths = [threading.Thread(target=body, args=(i,)) for i in range(nf)]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
            else:
                for i in range(nf):
                    body(i)
            with S.quiet():
                after = self.seen(tb, world)
                if after != before:
                    ctx.violate('toolbox', 'the toolbox or the user\'s data changed while folds worked with it: %s' % W.diff(before, after))
                    return
                for i in range(nf):
                    self.compare(ctx, plan, i, ref[i], got[i], 'together with the others')
            if ctx.violations:
                return
            if plan['late']:
                for i in range(nf):
                    if not plan['folds'][i]['again']:
                        continue
                    got[i] = {'log': []}
                    body(i)
                    with S.quiet():
                        self.compare(ctx, plan, i, ref[i], got[i], 'once more after the others')
            if path is not None:
                with S.quiet():
                    again = self.seen(ToolBox.load(path), world)
                    if again != before:
                        ctx.violate('toolbox', 'the saved toolbox differs: %s' % W.diff(before, again))

        _, sim = ctx.run('main', S.Params(**plan['params']), main, root=ctx.root)
        for e in sim.thread_errors:
            ctx.violate('error', 'a thread raised: %s' % (e,))
        ctx.probe('kind:' + plan['kind'])
        ctx.probe('how:' + plan['how'])
        ctx.trivial = sum(1 for r in ref if len(r['log']) > 4) < 2

    def seen(self, tb, world):
        """All that the toolbox tells about data and splits, and the user's own objects."""
        X, y, split, cost = world
        d = {'split': W.canon(tb.get_split()), 'user split': W.canon(split), 'X': W.canon(X), 'y': W.canon(y), 'cost': W.canon(cost)}
        for r in range(4):
            tr, te, L, U = tb.get_split(r)
            d['fold %d' % r] = (W.canon(tr), W.canon(te), W.canon_items(L), W.canon_items(U))
        return d

    def compare(self, ctx, plan, i, ref, got, when):
        if got.get('how') == 'raised' or got.get('how') is None:
            ctx.violate('error', 'fold %d run %s: %s' % (i, when, got.get('error', 'was not run')))
            return
        for k, (a, b) in enumerate(zip(ref['log'], got['log'])):
            if a != b:
                ctx.violate('differs', 'fold %d run %s (%s): "%s" (entry %d) is not what the fold sees alone: %s' % (
                    i, when, plan['how'], a[0], k, W.short('%s != %s' % (b[1:], a[1:]), 300)))
                return
        if ref['how'] != got['how'] or len(ref['log']) != len(got['log']):
            ctx.violate('differs', 'fold %d run %s makes another number of steps (%d) than alone (%d)' % (
                i, when, len(got['log']), len(ref['log'])))


CHECK = C27
