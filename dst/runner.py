"""Runs one check: many seeds in parallel workers, minimisation, replay, evidence."""
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import sim as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL = S.real_time
PERF = S.real_monotonic


def scratch_base():
    for b in ('/dev/shm', '/tmp'):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            try:
                st = os.statvfs(b)
                if st.f_bavail * st.f_frsize > 64 << 20:
                    return b
            except OSError:
                pass
    return '/tmp'


def derive(*parts):
    h = hashlib.sha256('/'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:7], 'big')


class Ctx(object):
    """What a check's execute() gets: simulations, violations, statistics."""

    def __init__(self, seed, root, traces=None, keep_log=False):
        self.seed = seed
        self.root = root
        self.replay_traces = traces           # label -> trace json, or None to generate
        self.traces = {}
        self.labels = []
        self.violations = []                  # (cls, msg)
        self.stats = {}
        self.faults = {}
        self.digest = hashlib.sha1()
        self.keep_log = keep_log
        self.logs = []
        self.sim_time = 0.0
        self.interleaving = hashlib.sha1()
        self.nsims = 0
        self.probes = {}
        self.trivial = False

    def violate(self, cls, msg):
        if len(self.violations) < 5:
            self.violations.append((cls, msg))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def rng(self, *label):
        return random.Random(derive(self.seed, 'rng', *label))

    def sim(self, label, params, root=None):
        """A new simulation whose decisions come from this run's seed or from the replay."""
        if label in self.traces:
            raise S.HarnessError('duplicate simulation label %s' % label)
        tr = None
        if self.replay_traces is not None:
            d = self.replay_traces.get(label)
            tr = S.Trace.from_json(d) if d is not None else S.Trace()
        s = S.Sim(seed=derive(self.seed, 'sim', label), trace=tr, params=params, root=root or self.root, label=label)
        s.keep_log = self.keep_log
        self.traces[label] = s.trace
        self.labels.append(label)
        self.nsims += 1
        self._open = s
        return s

    def run(self, label, params, fn, setup=None, root=None):
        """Run fn(sim) inside a simulation; SimAbort becomes a 'progress' violation."""
        s = self.sim(label, params, root)
        if setup:
            setup(s)
        try:
            return s.run(lambda: fn(s)), s
        finally:
            self.absorb(s)

    def absorb(self, s):
        self.digest.update(s.label.encode() + s.digest.digest())
        self.interleaving.update(repr(s.trace.sched).encode())
        self.interleaving.update(repr(s.trace.faults).encode())
        for k, v in s.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in s.fault_counts.items():
            self.faults[k] = self.faults.get(k, 0) + v
        self.stats['steps'] = self.stats.get('steps', 0) + s.k
        self.sim_time += s.now - 1000.0
        if self.keep_log:
            self.logs.append((s.label, s.log_lines))
        if s.dirty:
            self.stats['dirty'] = 1


class Check(object):
    """Base class of the property checks."""
    id = None
    title = ''
    quick_s = 40.0
    thorough_s = 600.0
    min_runs = 24
    rule = ''
    components = {'real': [], 'stub': []}
    assumptions = []
    level_note = ''

    def gen_plan(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrink(self, plan):
        return ()

    def nontrivial(self, plan, ctx):
        return not ctx.trivial


def load_check(pid):
    m = importlib.import_module('dst.checks.%s' % pid.lower())
    return m.CHECK()


def execute_once(check, plan, seed, root, traces=None, keep_log=False):
    """Execute one plan; returns (ctx, harness error text or None)."""
    S.wipe_dir(root)
    ctx = Ctx(seed, root, traces, keep_log)
    err = None
    try:
        check.execute(plan, ctx)
    except S.Violation as v:
        ctx.violate(v.cls, v.msg)
    except S.HarnessError:
        err = traceback.format_exc()
    except Exception as e:
        if raised_by_package(e):
            ctx.violate('raised', 'a call raised %s: %s' % (type(e).__name__, str(e)[:200]))
        else:
            err = traceback.format_exc()
    S.SIM = None
    os.chdir(VERIF)
    return ctx, err


def raised_by_package(e):
    """Whether an exception comes out of the code under test (and not out of the harness)."""
    tb = e.__traceback__
    files = []
    while tb is not None:
        files.append(os.path.abspath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    for f in reversed(files):
        if f.startswith(S.REPO + os.sep):
            return True
        if f.startswith(VERIF + os.sep) and os.path.basename(f) != 'sim.py':
            return False
    return False


def result_of(check, plan, ctx, err, idx, seed):
    d = {'idx': idx, 'seed': seed, 'err': err, 'viol': ctx.violations[:3], 'stats': ctx.stats, 'faults': ctx.faults,
         'simtime': ctx.sim_time, 'digest': ctx.digest.hexdigest(), 'inter': ctx.interleaving.hexdigest(),
         'nsims': ctx.nsims, 'probes': ctx.probes}
    try:
        d['nontrivial'] = bool(check.nontrivial(plan, ctx))
    except Exception:
        d['nontrivial'] = False
    return d


def plan_for(check, base, idx, tier):
    seed = derive(base, check.id, idx)
    rng = random.Random(derive(seed, 'plan'))
    return seed, check.gen_plan(rng, tier)


def worker_main(check, base, tier, start, step, deadline, wfd, root, max_runs, min_runs):
    os.makedirs(root, exist_ok=True)
    w = os.fdopen(wfd, 'w')
    idx = start
    n = 0
    try:
        while True:
            now = PERF()
            if (now >= deadline and n >= min_runs) or (max_runs and idx >= max_runs):
                break
            w.write(json.dumps({'begin': idx}) + '\n')
            w.flush()
            seed, plan = plan_for(check, base, idx, tier)
            t0 = PERF()
            logdir = os.environ.get('DST_LOGDIR')
            ctx, err = execute_once(check, plan, seed, root, keep_log=bool(logdir))
            if logdir:
                with S.real_open(os.path.join(logdir, '%s.%d.log' % (check.id, idx)), 'w') as lf:
                    for lab, lines in ctx.logs:
                        lf.write('--- %s\n%s\n' % (lab, '\n'.join(lines)))
            r = result_of(check, plan, ctx, err, idx, seed)
            r['wall'] = round(PERF() - t0, 4)
            if n < 2:
                r['plan'] = plan
            w.write(json.dumps(r, default=str) + '\n')
            w.flush()
            n += 1
            idx += step
            if ctx.violations or err or ctx.stats.get('dirty'):
                # a violating run may leave threads behind: continue in a fresh process
                w.write(json.dumps({'restart': idx}) + '\n')
                w.flush()
                break
        w.write(json.dumps({'done': idx}) + '\n')
        w.flush()
    finally:
        S.real_stdout.flush()
        os._exit(0)


class Worker(object):
    pass


def spawn_worker(check, base, tier, start, step, deadline, root, max_runs, min_runs):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            devnull = S._os['open']('/dev/null', os.O_WRONLY)
            os.dup2(devnull, 1)
            worker_main(check, base, tier, start, step, deadline, wfd, root, max_runs, min_runs)
        except BaseException:
            traceback.print_exc()
        os._exit(70)
    os.close(wfd)
    w = Worker()
    w.pid, w.fd, w.buf, w.root, w.start, w.last = pid, r, b'', root, start, PERF()
    w.next = start
    w.begin = None
    w.finished = False
    w.n = 0
    return w


def kill_worker(w):
    try:
        os.kill(w.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.waitpid(w.pid, 0)
    except OSError:
        pass
    try:
        os.close(w.fd)
    except OSError:
        pass


HANG_S = float(os.environ.get('DST_HANG', '150'))


def sweep(check, base, tier, budget, nworkers, scratch, max_runs=0, stop_on_violation=True, min_total=0):
    """Run seeds until the budget is used; returns (results, hangs)."""
    deadline = PERF() + budget
    per = max(1, (min_total or check.min_runs) // nworkers)
    ws = []
    for i in range(nworkers):
        root = os.path.join(scratch, 'w%02d' % i)
        ws.append(spawn_worker(check, base, tier, i, nworkers, deadline, root, max_runs, per))
    results, errs = [], []
    stop_at = None
    while ws:
        now = PERF()
        if stop_at is not None and now > stop_at:
            for w in ws:
                kill_worker(w)
            break
        rl, _, _ = select.select([w.fd for w in ws], [], [], 0.5)
        for w in list(ws):
            if w.fd in rl:
                data = os.read(w.fd, 1 << 20)
                if data:
                    w.last = PERF()
                    w.buf += data
                    while b'\n' in w.buf:
                        line, w.buf = w.buf.split(b'\n', 1)
                        m = json.loads(line)
                        if 'begin' in m:
                            w.begin = m['begin']
                        elif 'restart' in m:
                            w.next = m['restart']
                        elif 'done' in m:
                            w.finished = True
                            w.next = m['done']
                        else:
                            w.n += 1
                            results.append(m)
                            w.begin = None
                            if m['err']:
                                errs.append(m)
                            if m['viol'] and stop_on_violation and stop_at is None:
                                stop_at = PERF() + 3.0
                else:
                    try:
                        os.waitpid(w.pid, 0)
                    except OSError:
                        pass
                    os.close(w.fd)
                    ws.remove(w)
                    if not w.finished and w.begin is not None:
                        errs.append({'idx': w.begin, 'err': 'worker died during run %s' % w.begin})
                        w.next = w.begin + nworkers
                    if len(errs) < 5 and stop_at is None and PERF() < deadline and \
                            not (max_runs and w.next >= max_runs):
                        ws.append(spawn_worker(check, base, tier, w.next, nworkers, deadline, w.root, max_runs,
                                               max(0, per - w.n)))
            elif now - w.last > HANG_S:
                errs.append({'idx': w.begin, 'err': 'run %s hangs in real time' % w.begin})
                kill_worker(w)
                ws.remove(w)
        if len(errs) >= 5 and stop_at is None:
            stop_at = PERF() + 1.0
    return results, errs


# --------------------------------------------------------------------------- one execution in a child

def in_child(fn, timeout=120):
    """Run fn() in a forked child, return its JSON-able result (None on failure)."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            devnull = S._os['open']('/dev/null', os.O_WRONLY)
            os.dup2(devnull, 1)
            res = fn()
            data = json.dumps(res, default=str).encode()
            with S.real_open(wfd, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
        os._exit(0)
    os.close(wfd)
    buf = b''
    t0 = PERF()
    while True:
        left = timeout - (PERF() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass
    try:
        return json.loads(buf.decode()) if buf else None
    except ValueError:
        return None


def attempt(check, plan, seed, root, traces=None):
    def go():
        os.makedirs(root, exist_ok=True)
        ctx, err = execute_once(check, plan, seed, root, traces)
        return {'viol': ctx.violations, 'err': err, 'traces': {k: v.to_json() for k, v in ctx.traces.items()},
                'digest': ctx.digest.hexdigest()}
    return in_child(go)


def size_of(plan, traces):
    n = len(json.dumps(plan, default=str))
    t = sum(len(d['sched']) + len(d['faults']) + len(d.get('extra', [])) for d in traces.values())
    return n, t


def minimise(check, plan, seed, root, first, budget=45.0):
    """Shrink plan, then the schedule and fault trace, keeping the violation class."""
    t_end = PERF() + budget
    cls = first['viol'][0][0]
    best = (plan, seed, first['traces'], first)

    def same(r):
        return r is not None and not r['err'] and r['viol'] and r['viol'][0][0] == cls

    tried = 0
    progress = True
    while progress and PERF() < t_end - budget * 0.4:
        progress = False
        for cand in check.shrink(best[0]):
            if PERF() > t_end - budget * 0.4:
                break
            ok = None
            for s in range(4):
                sd = best[1] if s == 0 else derive(seed, 'shrink', tried, s)
                tried += 1
                r = attempt(check, cand, sd, root)
                if same(r):
                    ok = (cand, sd, r['traces'], r)
                    break
            if ok:
                best = ok
                progress = True
                break
    # traces: replay mode, drop decisions while the violation persists
    plan, sd, traces, r0 = best
    rr = attempt(check, plan, sd, root, traces)
    if not same(rr):
        return {'plan': plan, 'seed': sd, 'traces': None, 'viol': r0['viol'], 'mode': 'seed', 'tried': tried}
    traces = rr['traces']
    items = [(lab, kind, tuple(map(_freeze, d))) for lab in sorted(traces) for kind in ('sched', 'faults', 'extra')
             for d in traces[lab].get(kind, [])]

    def build(its):
        out = {lab: {'sched': [], 'faults': [], 'extra': []} for lab in traces}
        for lab, kind, d in its:
            out[lab][kind].append(list(d))
        return out

    n = 2
    last = rr
    while len(items) >= 1 and PERF() < t_end:
        size = max(1, len(items) // n)
        removed = False
        i = 0
        while i < len(items) and PERF() < t_end:
            cand = items[:i] + items[i + size:]
            r = attempt(check, plan, sd, root, build(cand))
            tried += 1
            if same(r):
                items = cand
                last = r
                removed = True
            else:
                i += size
        if size == 1 and not removed:
            break
        n = min(len(items) or 1, n * 2) if not removed or size > 1 else n
    final = attempt(check, plan, sd, root, build(items))
    if same(final):
        return {'plan': plan, 'seed': sd, 'traces': build(items), 'viol': final['viol'], 'mode': 'trace',
                'digest': final['digest'], 'tried': tried}
    return {'plan': plan, 'seed': sd, 'traces': last['traces'], 'viol': last['viol'], 'mode': 'trace',
            'digest': last['digest'], 'tried': tried}


def _freeze(x):
    return tuple(x) if isinstance(x, list) else x


# --------------------------------------------------------------------------- known findings

def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with S.real_open(p) as f:
        return json.load(f)['known']


def finding_for(findings, pid, viol):
    for f in findings:
        if f.get('status') == 'known' and f.get('property') == pid and f.get('class') == viol[0] and \
                f.get('match', '') in viol[1]:
            return f
    return None


# --------------------------------------------------------------------------- main

def wipe_tree(path):
    assert '/dst.' in path
    if not os.path.isdir(path):
        return
    S.wipe_dir(path)
    S._os['rmdir'](path)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--one', type=int, default=None, help='run a single index in this process and print it')
    ap.add_argument('--digests', action='store_true', help='print idx digest per run (determinism self-test)')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = WALL()
    S.install()
    check = load_check(a.property)
    scratch = os.path.join(scratch_base(), 'dst.%s.%07d' % (check.id, os.getpid() % 10000000))
    os.makedirs(scratch)
    rc = 3
    try:
        rc = _main(a, check, scratch, t0)
    finally:
        try:
            wipe_tree(scratch)
        except Exception:
            pass
        S.real_stdout.flush()
    return rc


def _main(a, check, scratch, t0):
    out = S.real_stdout
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.one is not None:
        seed, plan = plan_for(check, a.seed, a.one, tier)
        root = os.path.join(scratch, 'w00')
        os.makedirs(root)
        out.write(json.dumps(plan, default=str) + '\n')
        ctx, err = execute_once(check, plan, seed, root, keep_log=True)
        for lab, lines in ctx.logs:
            out.write('--- %s (%d events)\n' % (lab, len(lines)))
            for l in lines[:400]:
                out.write('   ' + l + '\n')
        out.write(json.dumps(result_of(check, plan, ctx, err, a.one, seed), indent=1, default=str) + '\n')
        if err:
            out.write(err)
        return 0
    nw = a.workers or int(os.environ.get('DST_WORKERS', '0')) or min(8, max(4, os.cpu_count() or 4))
    budget = a.budget or (check.quick_s if tier == 'quick' else check.thorough_s)
    results, errs = sweep(check, a.seed, tier, budget, nw, scratch, a.runs, stop_on_violation=not a.keep_going)
    if a.digests:
        for r in sorted(results, key=lambda r: r['idx']):
            out.write('%d %s\n' % (r['idx'], r['digest']))
        return 0
    findings = load_findings()
    viols = sorted([r for r in results if r['viol']], key=lambda r: r['idx'])
    unknown, known = [], {}
    for r in viols:
        un = [v for v in r['viol'] if finding_for(findings, check.id, v) is None]
        for v in r['viol']:
            f = finding_for(findings, check.id, v)
            if f is not None:
                known[f['id']] = f
        if un:
            unknown.append((r, un))
    # if only known findings stopped the sweep early there is nothing else to do here: --keep-going re-runs
    rc = 0
    replay_path = None
    if unknown:
        if a.keep_going:
            cl = {}
            for r, un in unknown:
                for v in un:
                    cl.setdefault(v[0], []).append((r['idx'], v[1]))
            for c in cl:
                out.write('class %s: %d runs, e.g. #%s %s\n' % (c, len(cl[c]), cl[c][0][0], cl[c][0][1]))
        r, un = unknown[0]
        replay_path = report_violation(check, a, tier, r, scratch, out)
        rc = 1
    for e in errs[:3]:
        out.write('HARNESS-ERROR run %s\n%s\n' % (e.get('idx'), e.get('err')))
    if errs and not unknown:
        rc = 3
    for f in known.values():
        out.write('KNOWN-FINDING: property=%s %s\n' % (check.id, f['what']))
    wall = WALL() - t0
    if not a.no_evidence:
        write_evidence(check, a, tier, results, errs, unknown, wall, nw, replay_path)
    n = len(results)
    out.write('%s %s seed=%d runs=%d nontrivial=%d violations=%d errors=%d wall=%.1fs\n' % (
        check.id, tier, a.seed, n, sum(1 for r in results if r['nontrivial']), len(unknown), len(errs), wall))
    return rc


def report_violation(check, a, tier, r, scratch, out):
    seed, plan = plan_for(check, a.seed, r['idx'], tier)
    root = os.path.join(scratch, 'min')
    os.makedirs(root, exist_ok=True)
    first = attempt(check, plan, seed, root)
    note = ''
    if first is None or first['err'] or not first['viol']:
        m = {'plan': plan, 'seed': seed, 'traces': None, 'viol': r['viol'], 'mode': 'seed', 'tried': 0}
        note = 'did not recur at once in a fresh process'
    else:
        try:
            m = minimise(check, plan, seed, root, first, 45.0 if tier == 'quick' else 180.0)
        except Exception:
            m = {'plan': plan, 'seed': seed, 'traces': first['traces'], 'viol': first['viol'], 'mode': 'trace',
                 'tried': 0}
            note = 'minimisation failed: ' + traceback.format_exc()
    rep = {'property': check.id, 'verif_seed': a.seed, 'tier': tier, 'index': r['idx'], 'run_seed': m['seed'],
           'original_seed': seed, 'mode': m['mode'], 'plan': m['plan'], 'traces': m['traces'], 'violation': m['viol'],
           'digest': m.get('digest'), 'attempts': m['tried'], 'note': note,
           'how': 'bin/replay <this file>: replays exactly this plan, schedule and fault trace'}
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (check.id, a.seed, r['idx']))
    with S.real_open(path, 'w') as f:
        json.dump(rep, f, indent=1, default=str)
    for v in m['viol'][:2]:
        out.write('violated: [%s] %s\n' % (v[0], v[1]))
    out.write('VIOLATION property=%s replay=%s\n' % (check.id, path))
    out.flush()
    return path


def replay_main(argv):
    path = argv[0]
    with S.real_open(path) as f:
        rep = json.load(f)
    S.install()
    check = load_check(rep['property'])
    scratch = os.path.join(scratch_base(), 'dst.%s.%07d' % (check.id, os.getpid() % 10000000))
    root = os.path.join(scratch, 'min')
    os.makedirs(root)
    out = S.real_stdout
    try:
        r = attempt(check, rep['plan'], rep['run_seed'], root, rep['traces'] if rep['mode'] == 'trace' else None)
    finally:
        wipe_tree(scratch)
    if r is None:
        out.write('replay gave no answer\n')
        return 3
    if r['err']:
        out.write(r['err'])
        return 3
    if r['viol']:
        for v in r['viol'][:2]:
            out.write('violated: [%s] %s\n' % (v[0], v[1]))
        if rep.get('digest') and r['digest'] != rep['digest']:
            out.write('note: event log differs from the recorded one\n')
        out.write('VIOLATION property=%s replay=%s\n' % (rep['property'], path))
        return 1
    out.write('no violation on this tree\n')
    return 0


def write_evidence(check, a, tier, results, errs, unknown, wall, nw, replay_path):
    n = len(results)
    tot = {}
    faults = {}
    probes = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
    inter = set(r['inter'] for r in results if r['nontrivial'])
    samples = []
    for r in sorted([r for r in results if 'plan' in r], key=lambda r: r['idx'])[:3]:
        samples.append({'index': r['idx'], 'seed': r['seed'], 'plan': r['plan'], 'event_log_sha1': r['digest'],
                        'faults': r['faults'], 'steps': r['stats'].get('steps', 0)})
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(inter),
        'rule': check.rule,
        'samples': samples,
        'simulations': sum(r['nsims'] for r in results),
        'runs_per_hour': int(n / wall * 3600) if wall else 0,
        'seeds': 'sha256(VERIF_SEED=%d / %s / index), indexes 0..%d' % (a.seed, check.id, max([r['idx'] for r in results] or [0])),
        'simulated_seconds': round(sum(r['simtime'] for r in results), 3),
        'faults_injected': faults,
        'scheduler': {k: tot.get(k, 0) for k in ('steps', 'switches', 'preempts', 'stalls', 'jumps', 'threads', 'polls',
                                                 'io_events')},
        'distinct_measure': 'distinct sequences of scheduling and fault decisions (sha1 of the recorded trace)',
        'distinct_event_logs': len(set(r['digest'] for r in results)),
        'reach_probes': probes,
        'components': check.components,
        'workers': nw,
        'harness_errors': len(errs),
    }
    ev = {'property': check.id, 'tier': tier, 'seed': a.seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': list(check.assumptions), 'wall_s': round(wall, 2), 'violations': len(unknown)}
    if replay_path:
        cov['replay'] = replay_path
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % check.id)
    with S.real_open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    S._os['replace'](tmp, os.path.join(d, '%s.json' % check.id))
