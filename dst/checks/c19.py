"""C19: an interrupted training-data download is never mistaken for a complete one."""
import io
import os
import threading
import zipfile

import numpy as np

from alipy.query_strategy import QueryInstanceLAL

from .. import net
from .. import sim as S
from .. import work as W
from ..runner import Check

KINDS = ('enospc', 'eio', 'short', 'torn_enospc', 'full', 'open_emfile', 'open_eio', 'open_enospc', 'close_eio',
         'rename_eio', 'rename_enospc', 'fsync_eio', 'unlink_eio')
NAMES = {'LAL_iterative': 'LAL-iterativetree-simulatedunbalanced-big.npz',
         'LAL_independent': 'LAL-randomtree-simulatedunbalanced-big.npz'}
X = np.arange(12.0).reshape(6, 2)
Y = np.array([0, 1, 0, 1, 0, 1])


def body_of(size, which):
    """A data file of about the given size, as the server keeps it."""
    b = io.BytesIO()
    with S.quiet():
        n = max(1, (size - 600) // 16)
        np.savez(b, np.arange(n, dtype=float).reshape(-1, 1) * (1 + which), np.arange(n, dtype=float))
        if 0 < size - b.tell() < 65536:
            # exactly that size
            with zipfile.ZipFile(b, 'a') as z:
                z.comment = b'x' * (size - len(b.getvalue()))
    return b.getvalue()


def gen_fault(rng):
    r = rng.random()
    if r < 0.12:
        return ['refused']
    if r < 0.2:
        return ['connect_timeout']
    if r < 0.4:
        return ['status', rng.choice([404, 429, 500, 503])]
    if r < 0.6:
        return ['break', rng.choice([0, 0.3, 0.5, 0.999])]
    if r < 0.8:
        return ['short', rng.choice([0, 0.3, 0.5, 0.999])]
    if r < 0.92:
        return ['stall', rng.choice([0, 0.4, 0.999])]
    return ['no_length']


class C19(Check):
    id = 'C19'
    title = 'LAL data download'
    rule = ('A run = 1-3 threads (one directory), each making 1-4 attempts to fetch the data file of one of the two modes from '
            'a simulated server; seeded requests are refused, time out, answer with an error status, break, end short, stall '
            'or lack a length, bodies arrive in pieces of seeded size; seeded file operations fail, interrupts strike, crash images are taken. At every file event the '
            'final name must be absent or complete; after every image a new attempt must succeed; complete files must be '
            'used without a request. Non-trivial: a fault struck or an image was checked.')
    components = {'real': ['alipy.query_strategy.QueryInstanceLAL.download_data', 'threading.Thread'],
                  'stub': ['requests package and network (simulated server)',
                           'file writes (SimWriter over a tmpfs directory)', 'locks/scheduler', 'clock']}
    assumptions = ['a body that ends early is delivered without an error (as requests does) or breaks the connection',
                   'crash model = process kill: data handed to the operating system survives, user-space buffers do not']
    quick_s = 30

    def gen_plan(self, rng, tier):
        nt = rng.choice([1, 1, 2, 3])
        fp = {}
        if rng.random() < 0.5:
            for k in rng.sample(KINDS, rng.choice([1, 1, 2])):
                fp[k] = rng.choice([0.05, 0.2, 0.5])
        return {'threads': [{'mode': rng.choice(sorted(NAMES)), 'tries': rng.choice([1, 2, 2, 4]),
                             'intr': rng.choice([0, 0, 0, 5, 15, 40])} for _ in range(nt)],
                'size': rng.choice([700, 2000, 65536, 65536 + 700, 131072, 150000]),
                'faults': [gen_fault(rng) if rng.random() < 0.7 else None for _ in range(rng.randrange(0, 7))],
                'piece': rng.choice([0, 0, 100, 1000, 30000]),
                'follow': rng.choice([1, 2, 4]), 'shared': rng.random() < 0.3,
                'params': W.gen_params(rng, fault_p=fp, max_faults=rng.choice([1, 3, 100]), line_gap=rng.choice([0, 4, 20]),
                                       crash_p=rng.choice([0.05, 0.2, 0.5]), max_crash=rng.choice([4, 12]))}

    def shrink(self, p):
        for key in ('threads', 'faults'):
            for i in range(len(p[key])):
                q = dict(p)
                q[key] = p[key][:i] + p[key][i + 1:]
                if q['threads']:
                    yield q
        if p['size'] > 700:
            yield dict(p, size=700)

    def execute(self, plan, ctx):
        root = ctx.root
        want = {n: body_of(plan['size'], i) for i, n in enumerate(sorted(NAMES.values()))}

        def bad_file(name):
            p = os.path.join(root, name)
            if os.path.exists(p):
                with S.quiet():
                    with S.real_open(p, 'rb') as f:
                        d = f.read()
                if d != want[name]:
                    return '%s holds %d bytes which are not the %d bytes of the complete file' % (
                        name[:10], len(d), len(want[name]))
            return None

        def check_all(what):
            for n in want:
                b = bad_file(n)
                if b:
                    ctx.violate('partial', '%s %s' % (what, b))

        def body(i, sim, srv, shared):
            t = plan['threads'][i]
            me = sim.me()
            name = NAMES[t['mode']]
            path = os.path.join(root, name)
            for a in range(t['tries'] + 1):
                last = a == t['tries']
                with S.quiet():
                    s = shared.get(t['mode']) or QueryInstanceLAL(X, Y, mode=t['mode'], data_path=root, cls_est=2,
                                                                  train_slt=False)
                    if plan['shared']:
                        shared[t['mode']] = s
                    have = os.path.exists(path)
                    mine = {'n': 0}
                if last:
                    # the network and the disk work again
                    sim.disk.immune.add(me.id)
                    sim.disk.full = False
                    srv.healthy.add(me.id)
                elif t['intr']:
                    sim.arm_interrupt(KeyboardInterrupt, t['intr'])
                srv.count[me.id] = 0
                err = None
                try:
                    s.download_data()
                except (S.SimAbort, S.HarnessError):
                    raise
                except BaseException as e:
                    err = '%s: %s' % (type(e).__name__, str(e)[:80])
                sim.disarm()
                with S.quiet():
                    check_all('after %s attempt' % ('a failed' if err else 'a successful'))
                    if have and srv.count[me.id]:
                        ctx.violate('refetch', 'a complete file existed but was requested again')
                    if err is None:
                        if not os.path.exists(path):
                            ctx.violate('absent', 'the download returned normally but there is no file')
                        ctx.probe('ok')
                    else:
                        ctx.probe('failed')
                        if last:
                            ctx.violate('not-healed', 'network and disk work again but the download raised %s' % err)
                if ctx.violations:
                    return

        def main_with(threads):
            def main(sim):
                srv = _Server(sim, want, plan['faults'] if threads else [])
                srv.piece = plan.get('piece', 0)
                shared = {}
                if threads:
                    def watch(kind, rel, task):
                        check_all('while downloading')
                    sim.disk.on_event = watch
                with srv:
                    if threads and len(plan['threads']) > 1:
                        ths = [threading.Thread(target=body, args=(i, sim, srv, shared))
                               for i in range(len(plan['threads']))]
                        for th in ths:
                            th.start()
                        for th in ths:
                            th.join()
                    elif threads:
                        body(0, sim, srv, shared)
                    else:
                        for mode in sorted(set(t['mode'] for t in plan['threads'])):
                            path = os.path.join(root, NAMES[mode])
                            have = os.path.exists(path)
                            n = srv.requests
                            try:
                                QueryInstanceLAL(X, Y, mode=mode, data_path=root, cls_est=2,
                                                 train_slt=False).download_data()
                            except Exception as e:
                                ctx.violate('not-healed', 'after a kill a new download fails: %s: %s'
                                            % (type(e).__name__, str(e)[:80]))
                                return
                            check_all('after a kill and a new attempt')
                            if not os.path.exists(path):
                                ctx.violate('absent', 'after a kill a new attempt returned normally but there is no file')
                            if have and srv.requests > n:
                                ctx.violate('refetch', 'a complete file existed but was requested again')
            return main

        _, sim = ctx.run('main', S.Params(**plan['params']), main_with(True))
        if sim.thread_errors:
            ctx.violate('error', 'an operation raised: %s' % (sim.thread_errors[0],))
        images = list(enumerate(sim.disk.images))
        rng = ctx.rng('images')
        for a, img in images:
            if ctx.violations:
                break
            S.restore_dir(root, img['files'])
            check_all('after a kill (%s)' % img['tag'])
        ctx.probe('images_checked', len(images))
        for a, img in rng.sample(images, min(len(images), plan['follow'])):
            if ctx.violations:
                break
            S.restore_dir(root, img['files'])
            ctx.run('r%d' % a, S.Params(**dict(plan['params'], crash_p=0, fault_p={})), main_with(False))
        ctx.trivial = not (images or sum(sim.fault_counts.values()))


class _Server(net.Server):
    """Per-thread request counts; threads whose network has healed meet no faults."""

    def __init__(self, sim, files, faults):
        net.Server.__init__(self, sim, files, faults)
        self.healthy = set()
        self.count = {}

    def get(self, url, stream, timeout):
        me = self.sim.me().id
        self.count[me] = self.count.get(me, 0) + 1
        return net.Server.get(self, url, stream, timeout, healthy=me in self.healthy)


CHECK = C19
