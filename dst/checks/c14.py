"""C14: saved data splits load back identical and failures are visible."""
import os
import threading

import numpy as np

from alipy.data_manipulate import split, split_features, split_load, split_multi_label, split_save

from .. import sim as S
from .. import work as W
from ..runner import Check

KINDS = ('enospc', 'eio', 'short', 'torn_enospc', 'full', 'open_emfile', 'open_eio', 'open_enospc', 'close_eio',
         'rename_eio', 'rename_enospc', 'fsync_eio', 'unlink_eio')
NAMES = ('train_idx', 'test_idx', 'label_idx', 'unlabel_idx')


def gen_split(rng):
    kind = rng.choice(['single', 'single', 'multi', 'multi', 'feature', 'feature'])
    d = {'kind': kind, 'how': rng.choice(['save', 'save', 'make']), 'folds': rng.choice([1, 1, 2, 3, 5]),
         'n': rng.choice([2, 3, 4, 5, 8, 12, 20, 40]), 'k': rng.choice([1, 2, 3, 4]), 'seed': rng.randrange(1 << 30),
         'form': rng.choice(['arrays', 'lists', 'array']), 'base': rng.choice([0, 0, 1, 7, 1000, 2 ** 33]),
         'ntest': rng.choice([0, 1, 1, 2, 5]), 'nlab': rng.choice([1, 1, 2, 4])}
    return d


def tables(d):
    """Four hand-made tables of the given kind."""
    import random
    rng = random.Random(d['seed'])
    n = max(d['n'], d['nlab'] + 1)
    tr, te, L, U = [], [], [], []
    for _ in range(d['folds']):
        ids = [d['base'] + i for i in range(n + d['ntest'])]
        rng.shuffle(ids)
        train, test = ids[:n], ids[n:]
        lab, unl = train[:d['nlab']], train[d['nlab']:]
        if d['kind'] == 'multi':
            lab, unl = [(i,) for i in lab], [(i,) for i in unl]
        elif d['kind'] == 'feature':
            lab = [(i, j) for i in lab for j in range(d['k'])]
            unl = [(i, j) for i in unl for j in range(d['k'])]
            rng.shuffle(unl)
        tr.append(train)
        te.append(test)
        L.append(lab)
        U.append(unl)
    out = [tr, te, L, U]
    if d['form'] == 'arrays':
        out[0] = [np.array(x, dtype=int) for x in tr]
        out[1] = [np.array(x, dtype=int) for x in te]
        if d['kind'] == 'single':
            out[2] = [np.array(x) for x in L]
            out[3] = [np.array(x) for x in U]
    elif d['form'] == 'array':
        out = [np.array(x, dtype=int) for x in out]
    return out


def make(d, path):
    """Let the package draw and save a split."""
    n = max(d['n'], 4)
    rng = np.random.RandomState(d['seed'] % (1 << 31))
    if d['kind'] == 'single':
        y = np.arange(n) % 2
        return split(y=y, test_ratio=0.25, initial_label_rate=0.4, split_count=d['folds'], all_class=False, saving_path=path)
    if d['kind'] == 'multi':
        y = (rng.rand(n, max(2, d['k'])) < 0.5).astype(int)
        return split_multi_label(y=y, test_ratio=0.25, initial_label_rate=0.4, split_count=d['folds'], all_class=False,
                                 saving_path=path)
    X = rng.rand(n, d['k'])
    return split_features(feature_matrix=X, test_ratio=0.25, missing_rate=0.6, split_count=d['folds'],
                          all_features=False, saving_path=path)


def same(want, got):
    for name, a, b in zip(NAMES, want, got):
        if b is None:
            return '%s is missing' % name
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return '%s has shape %s instead of %s' % (name, b.shape, a.shape)
        if b.dtype.kind not in 'iu':
            return '%s holds %s instead of integers' % (name, b.dtype)
        if not np.array_equal(a, b):
            return '%s: %s instead of %s' % (name, W.short(b.tolist()), W.short(a.tolist()))
    return None


class C14(Check):
    id = 'C14'
    title = 'split files'
    rule = ('A run = 1-2 directories (one thread each), 1-5 saves each of random single-label, multi-label and feature splits '
            '(hand-made tables and splits drawn by the package, 1-5 folds, also one-column, empty-test and very large-index '
            'tables) into the same directory; seeded disk errors strike the writes; after every save that returned the '
            'directory is loaded and compared element by element; after a failing one the disk is healed and the save '
            'repeated. Non-trivial: two kinds followed each other in a directory or a save failed.')
    components = {'real': ['alipy.data_manipulate split/split_multi_label/split_features/split_save/split_load',
                           'numpy savetxt/loadtxt/save/load', 'threading.Thread'],
                  'stub': ['file writes (SimWriter over a tmpfs directory)', 'locks/scheduler', 'clock']}
    assumptions = ['an error returned by close or unlink leaves the target as it was',
                   'a process kill in the middle of a save is not covered: the four tables are four files']
    quick_s = 30

    def gen_plan(self, rng, tier):
        nd = rng.choice([1, 1, 1, 2])
        dirs = []
        for _ in range(nd):
            dirs.append([gen_split(rng) for _ in range(rng.randrange(1, 6))])
        fp = {}
        if rng.random() < 0.7:
            for k in rng.sample(KINDS, rng.choice([1, 1, 2, 3])):
                fp[k] = rng.choice([0.02, 0.1, 0.3])
        return {'dirs': dirs, 'params': W.gen_params(rng, fault_p=fp, max_faults=rng.choice([1, 3, 100]),
                                                     line_gap=rng.choice([0, 8, 40]))}

    def shrink(self, p):
        if len(p['dirs']) > 1:
            for i in range(len(p['dirs'])):
                q = dict(p)
                q['dirs'] = p['dirs'][:i] + p['dirs'][i + 1:]
                yield q
        for i, d in enumerate(p['dirs']):
            for j in range(len(d)):
                if len(d) > 1:
                    q = dict(p)
                    q['dirs'] = [list(x) for x in p['dirs']]
                    del q['dirs'][i][j]
                    yield q
        for i, d in enumerate(p['dirs']):
            for j in range(len(d)):
                for key, small in (('folds', 1), ('n', 2), ('k', 2), ('base', 0), ('form', 'lists')):
                    if d[j][key] != small:
                        q = dict(p)
                        q['dirs'] = [[dict(y) for y in x] for x in p['dirs']]
                        q['dirs'][i][j][key] = small
                        yield q

    def execute(self, plan, ctx):
        def body(i, sim):
            path = os.path.join(ctx.root, 'd%d' % i)
            with S.quiet():
                os.mkdir(path)
            me = sim.me()
            last = None
            for d in plan['dirs'][i]:
                with S.quiet():
                    t = tables(d)
                    hurt0 = sum(sim.fault_counts.values())
                for attempt in (0, 1):
                    try:
                        if d['how'] == 'save':
                            split_save(t[0], t[1], t[2], t[3], path)
                        else:
                            t = make(d, path)
                    except (S.SimAbort, S.HarnessError):
                        raise
                    except Exception as e:
                        with S.quiet():
                            hurt = sum(sim.fault_counts.values()) - hurt0
                            if attempt or not hurt:
                                ctx.violate('not-healed' if attempt else 'error', '%s: saving a %s split raised %s: %s %s' % (
                                    os.path.basename(path), d['kind'], type(e).__name__, str(e)[:120],
                                    'although the disk works again' if attempt else 'without any fault'))
                                return
                            ctx.probe('failed_saves')
                        sim.disk.immune.add(me.id)
                        sim.disk.full = False
                        continue
                    break
                with S.quiet():
                    # a load that raises is as bad as one with other values
                    try:
                        bad = same(t, split_load(path))
                    except Exception as e:
                        bad = 'loading raised %s: %s' % (type(e).__name__, str(e)[:120])
                    if bad:
                        ctx.violate('load', 'a saved %s split (%d folds) does not load back: %s%s' % (
                            d['kind'], d['folds'], bad, ', after a %s split was saved there before' % last if last else ''))
                        return
                    ctx.probe('loads')
                    if last and last != d['kind']:
                        ctx.probe('kind_changes')
                    last = d['kind']
                sim.disk.immune.discard(me.id)

        def main(sim):
            if len(plan['dirs']) == 1:
                body(0, sim)
                return
            ths = [threading.Thread(target=body, args=(i, sim)) for i in range(len(plan['dirs']))]
            for th in ths:
                th.start()
            for th in ths:
                th.join()

        _, sim = ctx.run('main', S.Params(**plan['params']), main)
        if sim.thread_errors:
            ctx.violate('error', 'an operation raised: %s' % (sim.thread_errors[0],))
        ctx.trivial = not (ctx.probes.get('failed_saves') or ctx.probes.get('kind_changes'))


CHECK = C14
