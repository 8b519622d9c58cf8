"""Deterministic simulator: scheduler, clock, disk and fault injection.

Everything nondeterministic that ALiPy can meet goes through this module:

* threads    - the stock ``threading`` module runs on simulated locks and on a
               simulated ``_start_new_thread``: real threads, parked and released
               one at a time; which one runs is decided here at every yield point
               (each traced source line of /repo/alipy, each lock operation, clock
               reading, file operation and print).
* clocks     - ``time.*`` is virtual; sleeping costs nothing.
* disk       - files under the run's scratch directory are written through
               ``SimWriter``; every operation is an event at which a crash image
               can be taken or an error injected.
* randomness - ``random`` and ``numpy.random`` are seeded per simulation.

A simulation is a pure function of (plan, trace | seed, code).  In *generate* mode
decisions are drawn from a PRNG and the non-default ones are recorded; in *replay*
mode the recorded ones are applied and everything else takes its default.
"""
import _thread
import builtins
import errno
import hashlib
import io
import itertools
import os
import random
import sys
import threading
import time

REPO = os.environ.get('DST_REPO', '/repo')
TRACED_PREFIX = os.path.join(REPO, 'alipy') + os.sep

raw_allocate = _thread.allocate_lock
raw_start_new_thread = _thread.start_new_thread
raw_ident = _thread.get_ident
real_open = io.open
real_time = time.time
real_perf = time.perf_counter
real_monotonic = time.monotonic
real_sleep = time.sleep
real_process_time = time.process_time
_os = {n: getattr(os, n) for n in
       ('open', 'write', 'close', 'replace', 'rename', 'remove', 'unlink', 'mkdir', 'rmdir', 'fsync', 'fdatasync',
        'truncate', 'ftruncate', 'link', 'symlink', 'getpid', 'urandom', 'read', 'lseek', 'stat', 'listdir', 'makedirs',
        'fstat', 'utime', 'chmod')}
real_stdout = sys.stdout
real_stderr = sys.stderr

SIM = None            # the simulation in progress in this process, if any


class SimAbort(BaseException):
    """Unwinds simulated threads when a simulation is torn down."""


class HarnessError(Exception):
    """The machinery itself (not the code under test) went wrong."""


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg


# --------------------------------------------------------------------------- trace

class Trace(object):
    """Recorded decisions of one simulation."""

    def __init__(self, sched=None, faults=None, extra=None):
        self.sched = sched if sched is not None else []      # [k, 'run', task] | [k, 'stall', dur] | [k, 'jump', d]
        self.faults = faults if faults is not None else []   # [event, kind, param]
        self.extra = extra if extra is not None else []      # [name, n, value] of coin()

    def to_json(self):
        return {'sched': self.sched, 'faults': self.faults, 'extra': self.extra}

    @classmethod
    def from_json(cls, d):
        return cls([list(x) for x in d['sched']], [list(x) for x in d['faults']], [list(x) for x in d.get('extra', [])])


class Params(object):
    """Tuning of the random choices of one simulation (swarm-varied per run)."""

    def __init__(self, **kw):
        self.line_gap = 0          # mean number of traced lines between preemptions; 0 = never
        self.seam_p = 0.3          # probability of a switch at a non-polling seam
        self.poll_self = 0.2       # probability that a polling task keeps running
        self.policy = 'random'     # random | pct | starve
        self.tick = 0.01           # virtual seconds per clock reading
        self.stall_p = 0.0         # probability of stalling a task at a seam
        self.stall_len = 50        # stall length in ticks (max)
        self.jump_p = 0.0          # probability of a wall-clock jump at a clock reading
        self.coarse = 0            # resolution of the clocks in seconds (0 = exact)
        self.cpus = 4              # number of processors the machine says it has
        self.max_steps = 400000    # cap on yield points
        self.bufsize = 8192
        self.log_sizes = True      # whether the event log tells how much was written
        self.fault_p = {}          # kind -> probability per applicable event
        self.max_faults = 0
        self.crash_p = 0.0         # probability of taking a crash image at an I/O event
        self.max_crash = 0
        self.trace_files = ()      # extra traced path prefixes
        self.intr_gap = 0          # mean lines between injected KeyboardInterrupts inside armed regions
        for k, v in kw.items():
            if not hasattr(self, k):
                raise HarnessError('unknown parameter %s' % k)
            setattr(self, k, v)


class Task(object):
    __slots__ = ('id', 'name', 'gate', 'state', 'wake_at', 'timed_out', 'sentinel', 'prio', 'ident', 'stalled',
                 'waiting', 'aborted', 'armed', 'polls', 'untraced', 'done_at', 'cpu')

    def __init__(self, tid, name):
        self.id = tid
        self.name = name
        self.gate = raw_allocate()
        self.gate.acquire()
        self.state = 'run'
        self.wake_at = None
        self.timed_out = False
        self.sentinel = None
        self.prio = 0.0
        self.ident = 1000 + tid
        self.waiting = None
        self.aborted = 0
        self.armed = None
        self.polls = 0
        self.untraced = 0
        self.done_at = None
        self.cpu = 0.0


# --------------------------------------------------------------------------- scheduler

class Sim(object):
    def __init__(self, seed=None, trace=None, params=None, root=None, label=''):
        self.params = params or Params()
        self.label = label
        self.replay = trace is not None
        self.rng = random.Random(seed if seed is not None else 0)
        self.seed = seed
        self.trace = Trace()
        self.k = 0
        self.next_k = 1 << 60
        self.now = 1000.0
        self.cpu = 10.0
        self.wall_off = 1.6e9
        self.tasks = []
        self.by_real = {}
        self.current = None
        self.aborting = None
        self.steps = 0
        self.digest = hashlib.sha1()
        self.nlog = 0
        self.keep_log = False
        self.log_lines = []
        self.stats = {'switches': 0, 'preempts': 0, 'stalls': 0, 'jumps': 0, 'io_events': 0, 'crash_images': 0,
                      'threads': 0, 'polls': 0, 'interrupts': 0}
        self.fault_counts = {}
        self.thread_errors = []
        self.error_tasks = []           # the task of each, when known
        self.coin_n = {}
        self.out = []
        self.out_hook = None
        self.clock_hook = None
        self.disk = Disk(self, root)
        self.on_switch = None
        self.dirty = False
        self.pct_changes = set()
        self.seams = 0
        self.suspended = 0
        if self.replay:
            self._r_sched = {}
            for d in trace.sched:
                self._r_sched.setdefault(d[0], []).append(d)
            self._r_keys = sorted(self._r_sched)
            self._r_pos = 0
            self._r_faults = {}
            for d in trace.faults:
                self._r_faults.setdefault(d[0], []).append(d)
            self._r_extra = {(d[0], d[1]): d[2] for d in trace.extra}
            self._set_next_replay()
        else:
            self._set_next_gen()

    # -- logging (never draws from the PRNG, never reads a real clock)
    def log(self, *info):
        s = '%d|%s|%s' % (self.k, self.current.id if self.current else '-', '|'.join(map(str, info)))
        self.digest.update(s.encode('ascii', 'backslashreplace'))
        self.nlog += 1
        if self.keep_log:
            self.log_lines.append(s)

    # -- decisions
    def _set_next_replay(self):
        while self._r_pos < len(self._r_keys) and self._r_keys[self._r_pos] <= self.k:
            self._r_pos += 1
        self.next_k = self._r_keys[self._r_pos] if self._r_pos < len(self._r_keys) else 1 << 60
        cap = self.params.max_steps
        if self.next_k > cap:
            self.next_k = cap

    def _set_next_gen(self):
        gap = self.params.line_gap
        if gap:
            n = int(self.rng.expovariate(1.0 / gap)) + 1
            self.next_k = self.k + n
        else:
            self.next_k = 1 << 60
        if self.next_k > self.params.max_steps:
            self.next_k = self.params.max_steps

    def coin(self, name, p):
        """A recorded yes/no decision; default no."""
        n = self.coin_n.get(name, 0)
        self.coin_n[name] = n + 1
        if self.replay:
            v = bool(self._r_extra.get((name, n), 0))
        else:
            v = self.rng.random() < p
        if v:
            self.trace.extra.append([name, n, 1])
        return v

    def pick(self, name, n):
        """A recorded choice among n; default 0."""
        c = self.coin_n.get(name, 0)
        self.coin_n[name] = c + 1
        if self.replay:
            v = int(self._r_extra.get((name, c), 0)) % max(n, 1)
        else:
            v = self.rng.randrange(n) if n > 1 else 0
        if v:
            self.trace.extra.append([name, c, v])
        return v

    # -- running
    def me(self):
        return self.by_real.get(raw_ident())

    def runnable(self):
        return [t for t in self.tasks if t.state == 'run']

    def line(self, frame):
        """Called by the tracer when k reached next_k."""
        if self.k >= self.params.max_steps:
            self.abort('step-cap')
            self.next_k = self.k + 1
        t = self.me()
        if self.aborting:
            self._maybe_abort(t)
            return
        if self.suspended or t is None or t is not self.current:
            self._advance_next()
            return
        if self.replay:
            ds = self._r_sched.get(self.k)
            self._set_next_replay()
            if ds:
                self._apply(t, ds)
            return
        self._set_next_gen()
        others = [x for x in self.tasks if x.state == 'run' and x is not t]
        if not others:
            return
        nxt = self._choose(t, others, preempt=True)
        if nxt is not t:
            self.trace.sched.append([self.k, 'run', nxt.id])
            self.stats['preempts'] += 1
            self._switch(t, nxt)

    def _advance_next(self):
        if self.replay:
            self._set_next_replay()
        else:
            self._set_next_gen()

    def _apply(self, t, ds):
        """Apply recorded decisions; tells whether one of them settled who runs next."""
        settled = False
        for d in ds:
            if d[1] == 'run':
                for x in self.tasks:
                    if x.id == d[2] and x.state == 'run':
                        self.trace.sched.append(list(d))
                        settled = True
                        if x is not t:
                            self.stats['preempts'] += 1
                            self._switch(t, x)
                        break
            elif d[1] == 'stall':
                self.trace.sched.append(list(d))
                settled = True
                self._stall(t, d[2])
            elif d[1] == 'jump':
                self.trace.sched.append(list(d))
                self._jump(d[2])
        return settled

    def _stall(self, t, dur):
        self.stats['stalls'] += 1
        self.log('stall', dur)
        t.wake_at = self.now + dur
        t.state = 'sleep'
        self._reschedule(t)

    def _jump(self, d):
        self.stats['jumps'] += 1
        self.wall_off += d
        self.log('jump', d)

    def _choose(self, t, others, preempt):
        p = self.params
        if p.policy == 'pct':
            if preempt:
                # priority change point: the running task drops below everyone
                t.prio = min(x.prio for x in self.tasks) - 1
            return max(others, key=lambda x: (x.prio, -x.id))
        if p.policy == 'starve':
            victim = self.starved
            pool = [x for x in others if x.id != victim]
            if pool and self.rng.random() < 0.97:
                return self.rng.choice(pool)
        return self.rng.choice(others)

    @property
    def starved(self):
        n = max(len(self.tasks), 1)
        return (self.seed or 0) % n

    def seam(self, kind, poll=False):
        """A yield point at an intercepted operation."""
        t = self.me()
        if t is None or self.suspended:
            return
        if t is not self.current:
            raise HarnessError('task %s runs without the baton' % t.name)
        self.k += 1
        self.seams += 1
        if not t.untraced and sys.gettrace() is None and self.tracer is not None:
            sys.settrace(self.tracer)
        if self.aborting:
            self._maybe_abort(t)
            return
        if self.k >= self.params.max_steps:
            self.abort('step-cap')
            self._maybe_abort(t)
        others = [x for x in self.tasks if x.state == 'run' and x is not t]
        if poll:
            self.stats['polls'] += 1
        if self.replay:
            if self.next_k <= self.k:
                self._set_next_replay()
            ds = self._r_sched.get(self.k)
            if ds and self._apply(t, ds):
                return
            if poll:
                self._default_poll(t, others)
            return
        if self.next_k <= self.k:
            self._set_next_gen()
        p = self.params
        if p.stall_p and self.rng.random() < p.stall_p and t.id != 0:
            dur = p.tick * (1 + self.rng.randrange(p.stall_len))
            self.trace.sched.append([self.k, 'stall', dur])
            self._stall(t, dur)
            return
        if p.jump_p and kind == 'clock' and self.rng.random() < p.jump_p:
            d = self.rng.choice([-1, 1]) * self.rng.choice([0.5, 5.0, 3600.0, 1e6])
            self.trace.sched.append([self.k, 'jump', d])
            self._jump(d)
        if not others:
            if poll:
                self._default_poll(t, others)
            return
        if poll:
            if p.policy == 'pct':
                t.prio = min(x.prio for x in self.tasks) - 1
                nxt = max(others, key=lambda x: (x.prio, -x.id))
            elif self.rng.random() < p.poll_self:
                nxt = t
            else:
                nxt = self._choose(t, others, preempt=False)
            dflt = self._next_after(t, others)
            if nxt is not dflt:
                self.trace.sched.append([self.k, 'run', nxt.id])
            if nxt is not t:
                self._switch(t, nxt)
        else:
            if p.policy == 'pct':
                nxt = max(others + [t], key=lambda x: (x.prio, -x.id))
            elif self.rng.random() < p.seam_p:
                nxt = self._choose(t, others, preempt=False)
            else:
                nxt = t
            if nxt is not t:
                self.trace.sched.append([self.k, 'run', nxt.id])
                self._switch(t, nxt)

    def _next_after(self, t, others):
        hi = [x for x in others if x.id > t.id]
        return hi[0] if hi else others[0]

    def _default_poll(self, t, others):
        if others:
            self._switch(t, self._next_after(t, others))
            return
        # nobody else can run: a spinning task would spin until the next wake-up
        sl = [x.wake_at for x in self.tasks if x.wake_at is not None and x is not t]
        if sl:
            nxt = min(sl)
            if nxt > self.now:
                # approach the wake-up geometrically so that the spinner still polls a few times
                gap = nxt - self.now
                self.now = nxt if gap < 20 * self.params.tick else self.now + gap / 2
            self._wake()

    def _wake(self):
        for x in self.tasks:
            if x.wake_at is not None and x.wake_at <= self.now and x.state in ('sleep', 'block'):
                x.wake_at = None
                if x.state == 'block':
                    x.timed_out = True
                    if x.waiting is not None and x in x.waiting.waiters:
                        x.waiting.waiters.remove(x)
                x.state = 'run'

    def advance(self, dt):
        self.now += dt
        self._wake()

    def _switch(self, t, nxt):
        self.stats['switches'] += 1
        self.current = nxt
        if self.on_switch is not None:
            self.on_switch(t, nxt)
        nxt.gate.release()
        t.gate.acquire()
        # running again
        if self.aborting:
            self._maybe_abort(t)

    def _reschedule(self, t):
        """t cannot continue (blocked, asleep or done): hand the baton over."""
        while True:
            cand = [x for x in self.tasks if x.state == 'run']
            if cand:
                break
            sl = [x.wake_at for x in self.tasks if x.wake_at is not None and x.state in ('sleep', 'block')]
            if sl:
                self.now = max(self.now, min(sl))
                self._wake()
                continue
            if t.state == 'done' and not [x for x in self.tasks if x.state != 'done']:
                return None
            # deadlock
            self.abort('deadlock: ' + ', '.join('%s:%s' % (x.name, x.state) for x in self.tasks if x.state != 'done'))
        if self.aborting:
            # unwind worker threads first, the driver last
            cand.sort(key=lambda x: (x.id == 0, x.id))
            nxt = cand[0]
        elif self.replay:
            nxt = self._next_after(t, cand)
            self.k += 1
            ds = self._r_sched.get(self.k)
            if self.next_k <= self.k:
                self._set_next_replay()
            if ds:
                for d in ds:
                    if d[1] == 'run':
                        for x in cand:
                            if x.id == d[2]:
                                nxt = x
                                self.trace.sched.append(list(d))
        else:
            self.k += 1
            if self.next_k <= self.k:
                self._set_next_gen()
            if self.params.policy == 'pct':
                nxt = max(cand, key=lambda x: (x.prio, -x.id))
            else:
                nxt = self.rng.choice(cand)
            if nxt is not self._next_after(t, cand):
                self.trace.sched.append([self.k, 'run', nxt.id])
        if nxt is t:
            return nxt
        self.stats['switches'] += 1
        self.current = nxt
        if self.on_switch is not None:
            self.on_switch(t, nxt)
        nxt.gate.release()
        if t.state != 'done':
            t.gate.acquire()
            if self.aborting:
                self._maybe_abort(t)
        return nxt

    def abort(self, why):
        if self.aborting is None:
            self.aborting = why
            self.next_k = self.k
        for x in self.tasks:
            if x.state in ('sleep', 'block'):
                x.state = 'run'
                x.wake_at = None

    def _maybe_abort(self, t):
        if t is None or self.aborting == 'drain' and t.id == 0:
            return
        t.aborted += 1
        if t.aborted > 2000:
            self.dirty = True
            real_stderr.write('task does not unwind\n')
            os._exit(77)
        raise SimAbort(self.aborting)

    # -- blocking primitives
    def block_on(self, lock, deadline):
        t = self.me()
        t.state = 'block'
        t.timed_out = False
        t.waiting = lock
        t.wake_at = deadline
        lock.waiters.append(t)
        try:
            self._reschedule(t)
        finally:
            t.waiting = None
            if t in lock.waiters:
                lock.waiters.remove(t)
        return not t.timed_out

    def sleep(self, d):
        t = self.me()
        if t is None or self.suspended:
            return
        self.k += 1
        if d < 0:
            raise ValueError('sleep length must be non-negative')
        if self.aborting:
            self._maybe_abort(t)
            return
        if self.k >= self.params.max_steps:
            self.abort('step-cap')
            self._maybe_abort(t)
        t.state = 'sleep'
        t.wake_at = self.now + d
        self._reschedule(t)

    # -- threads
    def new_task(self, name):
        t = Task(len(self.tasks), name)
        if not self.replay:
            t.prio = self.rng.random()
        self.tasks.append(t)
        return t

    def spawn(self, function, args, kwargs):
        t = self.new_task('t%d' % len(self.tasks))
        self.stats['threads'] += 1
        sim = self

        def boot():
            sim.by_real[raw_ident()] = t
            t.gate.acquire()
            try:
                if sim.tracer is not None:
                    sys.settrace(sim.tracer)
                if not sim.aborting:
                    function(*args, **kwargs)
            except SimAbort:
                pass
            except BaseException as e:       # pragma: no cover - _bootstrap swallows exceptions itself
                sim.thread_errors.append((t.id, repr(e)))
                sim.error_tasks.append(t.id)
            finally:
                sys.settrace(None)
                t.state = 'done'
                t.done_at = sim.now
                if t.sentinel is not None:
                    try:
                        t.sentinel.release()
                    except RuntimeError:
                        pass
                sim.by_real.pop(raw_ident(), None)
                sim._reschedule(t)

        self.log('spawn', t.id)
        raw_start_new_thread(boot, ())
        return t.ident

    # -- driver
    def run(self, fn):
        """Run fn() as task 0 of this simulation and return its result."""
        global SIM
        if SIM is not None:
            raise HarnessError('nested simulation')
        main = self.new_task('main')
        main.ident = _main_ident
        self.by_real[raw_ident()] = main
        self.current = main
        SIM = self
        self.tracer = make_tracer(self)
        import numpy as np
        s = (self.seed or 0) & 0x7fffffff
        random.seed(s)
        np.random.seed(s)
        import tempfile
        tempfile._name_sequence = _Names()
        threading._counter = itertools.count(1).__next__
        old_out = sys.stdout
        sys.stdout = SimStdout(self)
        old_hook = threading.excepthook
        threading.excepthook = self._excepthook
        try:
            sys.settrace(self.tracer)
            try:
                r = fn()
            finally:
                sys.settrace(None)
                self._drain(main)
            if self.aborting not in (None, 'drain'):
                raise SimAbort(self.aborting)
            return r
        except SimAbort as e:
            raise Violation('progress', 'run did not finish: %s' % (self.aborting or e,))
        finally:
            SIM = None
            threading.excepthook = old_hook
            sys.stdout = old_out
            self.disk.cleanup()
            # forget threads that never got unwound
            for th in list(threading._active.keys()):
                if th != _main_ident:
                    threading._active.pop(th, None)
            threading._limbo.clear()

    def _excepthook(self, args):
        if args.exc_type is SimAbort or args.exc_type is SystemExit:
            return
        name = args.thread.name if args.thread is not None else '?'
        self.thread_errors.append((name, args.exc_type.__name__, str(args.exc_value)[:300]))
        t = self.by_real.get(raw_ident())
        self.error_tasks.append(None if t is None else t.id)
        self.log('thread-error', name, args.exc_type.__name__)

    def _drain(self, main):
        """Unwind every thread that is still alive."""
        if self.aborting is None:
            live = [t for t in self.tasks if t is not main and t.state != 'done']
            self.left_over = len(live)
            if not live:
                return
            self.abort('drain')
        for t in self.tasks:
            if t.state in ('sleep', 'block'):
                t.state = 'run'
        guard = 0
        while True:
            live = [t for t in self.tasks if t is not main and t.state != 'done']
            if not live:
                break
            guard += 1
            if guard > 5000:
                self.dirty = True
                break
            for t in live:
                if t.state in ('sleep', 'block'):
                    t.state = 'run'
                    t.wake_at = None
            nxt = [t for t in live if t.state == 'run'][0]
            self.current = nxt
            nxt.gate.release()
            main.gate.acquire()

    # -- clock
    def read_clock(self, kind):
        t = self.me()
        if t is None or self.suspended:
            return {'mono': self.now, 'wall': self.now + self.wall_off}.get(kind, self.cpu)
        self.seam('clock', poll=True)
        if self.clock_hook is not None:
            self.clock_hook(t, kind)
        h = (self.k * 2654435761) & 0xffff
        dt = self.params.tick * (0.5 + h / 65536.0)
        self.advance(dt)
        # processor time: stands still while threads sleep or stall
        self.cpu += dt
        t.cpu += dt
        if kind == 'wall':
            v = self.now + self.wall_off
        elif kind == 'mono':
            v = self.now
        else:
            v = self.cpu if kind == 'cpu' else t.cpu
        g = self.params.coarse
        return v // g * g if g else v


class _Suspend(object):
    """The harness' own observations: no yields, no faults, no clock advance."""

    def __init__(self, sim):
        self.sim = sim

    def __enter__(self):
        self.sim.suspended += 1
        t = self.sim.me()
        if t is not None:
            t.untraced += 1
            if t.untraced == 1:
                sys.settrace(None)

    def __exit__(self, *a):
        self.sim.suspended -= 1
        t = self.sim.me()
        if t is not None:
            t.untraced -= 1
            if not t.untraced:
                sys.settrace(self.sim.tracer)


def untraced(fn):
    """Run a library function without line tracing (its file operations still yield)."""
    def f(*a, **kw):
        sim = SIM
        if sim is None or sim.params.trace_files:
            return fn(*a, **kw)
        t = sim.me()
        if t is None or t.untraced:
            return fn(*a, **kw)
        t.untraced += 1
        sys.settrace(None)
        try:
            return fn(*a, **kw)
        finally:
            t.untraced -= 1
            if SIM is sim:
                sys.settrace(sim.tracer)
    f.__name__ = getattr(fn, '__name__', 'f')
    f.__doc__ = fn.__doc__
    return f


def _patch_untraced():
    import pickle
    import prettytable
    for n in ('dump', 'dumps', 'load', 'loads'):
        setattr(pickle, n, untraced(getattr(pickle, n)))
    PT = prettytable.PrettyTable
    for n in ('get_string', 'add_row', 'add_column', '__str__', '__init__'):
        if n in PT.__dict__:
            setattr(PT, n, untraced(PT.__dict__[n]))


def quiet():
    return _Suspend(SIM) if SIM is not None else _Null()


class _Null(object):
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


class _Names(object):
    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'sim%05d' % self.n


_traced_cache = {}


def _is_traced(fn, extra):
    r = _traced_cache.get(fn)
    if r is None:
        r = _traced_cache[fn] = fn.startswith(TRACED_PREFIX)
    if not r and extra:
        for e in extra:
            if fn.endswith(e):
                return True
    return r


def make_tracer(sim):
    extra = tuple(sim.params.trace_files)

    class Local(object):
        """Counts a line event only when the line differs from the frame's previous one.

        PyPy reports the iterations of a one-line loop depending on what the JIT has
        compiled, which would make the count depend on the history of the process.
        """
        __slots__ = ('last',)

        def __init__(self):
            self.last = -1

        def __call__(self, frame, event, arg):
            if event == 'line':
                n = frame.f_lineno
                if n != self.last:
                    self.last = n
                    sim.k += 1
                    if sim.intr_at is not None and sim.intr_at <= sim.k:
                        sim.hit_interrupt(frame)
                    if sim.k >= sim.next_k:
                        sim.line(frame)
            return self

    def glob(frame, event, arg):
        if _is_traced(frame.f_code.co_filename, extra):
            return Local()
        return None
    return glob


# interrupts: armed by the harness around one operation of one task
def _arm(self, kind, gap):
    """Possibly interrupt the current task within its next lines (recorded)."""
    n = self.coin_n.get('intr', 0)
    self.coin_n['intr'] = n + 1
    if self.replay:
        v = self._r_extra.get(('intr', n), 0)
    else:
        v = 1 + self.rng.randrange(gap)
    if v:
        self.trace.extra.append(['intr', n, v])
        self.intr_at = self.k + v
        self.intr_task = self.me()
        self.intr_kind = kind


def _disarm(self):
    self.intr_at = None


def _hit_interrupt(self, frame):
    if self.me() is not self.intr_task:
        return
    self.intr_at = None
    self.stats['interrupts'] += 1
    kind = 'alloc_failed' if self.intr_kind is MemoryError else 'interrupt'
    self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
    self.log('interrupt', frame.f_code.co_name)
    raise self.intr_kind('injected')


Sim.arm_interrupt = _arm
Sim.disarm = _disarm
Sim.hit_interrupt = _hit_interrupt
Sim.intr_at = None
Sim.intr_task = None
Sim.intr_kind = KeyboardInterrupt
Sim.tracer = None
Sim.on_switch = None
Sim.left_over = 0


# --------------------------------------------------------------------------- thread seams

class SimLock(object):
    """threading.Lock on the simulated scheduler."""

    def __init__(self):
        self._locked = False
        self.waiters = []

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        t = sim.me() if sim is not None else None
        if t is None or (sim.suspended and not self._locked):
            if self._locked:
                if not blocking:
                    return False
                raise HarnessError('blocking on a simulated lock outside the simulation')
            self._locked = True
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        sim.seam('lock', poll=not blocking)
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = sim.now + timeout
        while self._locked:
            ok = sim.block_on(self, deadline)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        for t in list(self.waiters):
            t.state = 'run'
            t.wake_at = None
            t.timed_out = False
        self.waiters = []
        # no yield here: a release is followed by another seam soon enough, and
        # threading's own internals must not be re-entered

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self.waiters = []

    def __repr__(self):
        return '<SimLock %s>' % ('locked' if self._locked else 'unlocked')


_main_ident = 1


THREAD = '-thread-'          # the path of the events of starting a thread


def _sim_start_new_thread(function, args, kwargs=None):
    sim = SIM
    if sim is None or sim.me() is None:
        return raw_start_new_thread(function, args, kwargs or {})
    if not sim.aborting and sim.disk.root:
        if sim.disk.event('thread', os.path.join(sim.disk.root, THREAD), 0, ('thread_start',)):
            raise RuntimeError("can't start new thread")
    return sim.spawn(function, args, kwargs or {})


def _sim_get_ident():
    sim = SIM
    if sim is None:
        return _main_ident
    t = sim.me()
    return t.ident if t is not None else _main_ident


def _sim_set_sentinel():
    lock = SimLock()
    sim = SIM
    t = sim.me() if sim is not None else None
    if t is not None:
        t.sentinel = lock
    return lock


class SimStdout(object):
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, sim):
        self.sim = sim

    def write(self, s):
        sim = self.sim
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        t = sim.me()
        if t is not None and not sim.suspended:
            sim.out.append((t.id, s))
            if sim.out_hook is not None:
                sim.suspended += 1
                try:
                    sim.out_hook(t, s)
                finally:
                    sim.suspended -= 1
            if len(s) > 1:
                sim.seam('print')
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


def _patch_threads():
    threading._start_new_thread = _sim_start_new_thread
    _thread.start_new_thread = _sim_start_new_thread
    _thread.start_new = _sim_start_new_thread
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._set_sentinel = _sim_set_sentinel
    threading.get_ident = _sim_get_ident
    # _thread.allocate_lock stays real: the import machinery uses it
    mt = threading.main_thread()
    threading._active.clear()
    mt._ident = _main_ident
    threading._active[_main_ident] = mt
    lk = SimLock()
    lk.acquire()
    mt._tstate_lock = lk
    # polling calls: a task that looks at other threads in a loop must let them run
    for name in ('active_count', 'enumerate'):
        orig = getattr(threading, name)

        def wrapper(*a, _o=orig, **kw):
            if SIM is not None and SIM.me() is not None:
                SIM.seam('poll', poll=True)
            return _o(*a, **kw)
        setattr(threading, name, wrapper)
    threading.activeCount = threading.active_count
    orig_alive = threading.Thread.is_alive

    def is_alive(self):
        if SIM is not None and SIM.me() is not None:
            SIM.seam('poll', poll=True)
        return orig_alive(self)
    threading.Thread.is_alive = is_alive
    threading.Thread.isAlive = is_alive
    import queue
    if hasattr(queue, '_PySimpleQueue'):
        queue.SimpleQueue = queue._PySimpleQueue
    import concurrent.futures.thread  # noqa: F401  (created after the patch: uses simulated locks)


def _patch_clocks():
    def mk(kind):
        def f():
            sim = SIM
            if sim is None:
                return real_time() if kind == 'wall' else real_perf()
            return sim.read_clock(kind)
        return f
    time.time = mk('wall')
    time.perf_counter = mk('mono')
    time.monotonic = mk('mono')
    time.process_time = mk('cpu')
    time.thread_time = mk('tcpu')
    for n in ('time', 'perf_counter', 'monotonic', 'process_time', 'thread_time'):
        base = getattr(time, n)
        setattr(time, n + '_ns', (lambda b: lambda: int(b() * 1e9))(base))
    threading._time = time.monotonic
    try:
        import queue
        queue.time = time.monotonic
    except Exception:
        pass

    def sleep(d):
        sim = SIM
        if sim is None or sim.me() is None:
            return real_sleep(d)
        return sim.sleep(d)
    time.sleep = sleep
    import datetime as _dt

    class _SimDateTime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            if SIM is None:
                return _real_dt.now(tz)
            return _real_dt.fromtimestamp(SIM.read_clock('wall'), tz)

        @classmethod
        def utcnow(cls):
            if SIM is None:
                return _real_dt.utcnow()
            return _real_dt.utcfromtimestamp(SIM.read_clock('wall'))
    _real_dt = _dt.datetime
    _dt.datetime = _SimDateTime


# --------------------------------------------------------------------------- disk

class Fault(object):
    pass


WRITE_KINDS = ('enospc', 'eio', 'short', 'torn_enospc')


class Disk(object):
    """The scratch directory of a simulation."""

    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.abspath(root) if root else None
        self.e = 0
        self.files = []
        self.fds = {}
        self.images = []           # crash images: dict(event, files, tag, state)
        self.image_state = None    # harness callback: state at the crash instant
        self.nfaults = 0
        self.full = False          # persistent disk-full
        self.enabled = True        # faults may fire
        self.fault_task = None     # restrict faults to this task id (None = all)
        self.fault_filter = None   # callable(path) -> bool
        self.history = []          # (event, kind, relpath, task)
        self.on_event = None
        self.last_fault = None
        self.immune = set()        # tasks for which the disk works again

    def inside(self, path):
        if self.root is None:
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode('utf8', 'replace')
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        p = os.path.abspath(os.fspath(path))
        return p[len(self.root):].lstrip(os.sep) or '.'

    # -- crash images
    def snapshot(self):
        return snapshot_dir(self.root)

    def take_image(self, tag):
        self.sim.suspended += 1
        try:
            st = self.image_state() if self.image_state else None
        finally:
            self.sim.suspended -= 1
        img = {'event': self.e, 'k': self.sim.k, 'files': self.snapshot(), 'tag': tag, 'state': st}
        self.images.append(img)
        self.sim.stats['crash_images'] += 1
        self.sim.fault_counts['crash'] = self.sim.fault_counts.get('crash', 0) + 1
        self.sim.log('image', tag, len(img['files']))
        return img

    def crash_point(self, tag, weight=1.0):
        """A place where the process may be killed (harness-visible, between operations)."""
        sim = self.sim
        if sim.suspended or self.root is None:
            return
        self.e += 1
        self._maybe_image(tag, weight)

    def _maybe_image(self, tag, weight=1.0):
        sim = self.sim
        if sim.replay:
            for d in sim._r_faults.get(self.e, ()):
                if d[1] == 'crash':
                    sim.trace.faults.append(list(d))
                    self.take_image(tag)
                    return True
            return False
        p = sim.params
        if p.crash_p and len(self.images) < p.max_crash and sim.rng.random() < p.crash_p * weight:
            sim.trace.faults.append([self.e, 'crash', 0])
            self.take_image(tag)
            return True
        return False

    # -- events
    def event(self, kind, path, size=0, kinds=()):
        """Announce an I/O operation; returns an injected fault kind or None."""
        sim = self.sim
        t = sim.me()
        if t is None or sim.suspended:
            return None
        sim.seam('io')
        self.e += 1
        sim.stats['io_events'] += 1
        rel = self.rel(path)
        self.history.append((self.e, kind, rel, t.id))
        sim.log('io', kind, os.path.basename(rel), size if sim.params.log_sizes else '-')
        if self.on_event is not None:
            sim.suspended += 1
            try:
                self.on_event(kind, rel, t)
            finally:
                sim.suspended -= 1
        self._maybe_image(kind)
        return self._maybe_fault(kinds, t, rel)

    def _maybe_fault(self, kinds, t, rel):
        sim = self.sim
        if t.id in self.immune:
            return None
        if self.full and ('enospc' in kinds):
            if kinds[0] in ('enospc', 'torn_enospc', 'short'):
                sim.fault_counts['enospc'] = sim.fault_counts.get('enospc', 0) + 1
                self.last_fault = 'enospc'
                return 'enospc'
        if sim.replay:
            for d in sim._r_faults.get(self.e, ()):
                if d[1] in kinds or (d[1] == 'full' and 'enospc' in kinds):
                    sim.trace.faults.append(list(d))
                    return self._fire(d[1])
            return None
        p = sim.params
        if not p.fault_p or self.nfaults >= p.max_faults or not self.enabled:
            return None
        if self.fault_task is not None and t.id != self.fault_task:
            return None
        if self.fault_filter is not None and not self.fault_filter(rel):
            return None
        for kd in kinds + (('full',) if 'enospc' in kinds else ()):
            pr = p.fault_p.get(kd, 0.0)
            if pr and sim.rng.random() < pr:
                sim.trace.faults.append([self.e, kd, 0])
                return self._fire(kd)
        return None

    def _fire(self, kd):
        self.nfaults += 1
        self.last_fault = kd
        self.sim.fault_counts[kd] = self.sim.fault_counts.get(kd, 0) + 1
        self.sim.log('fault', kd)
        if kd == 'full':
            self.full = True
            return 'enospc'
        return kd

    def heal(self):
        self.full = False
        self.enabled = False

    def cleanup(self):
        for f in self.files:
            f._drop()
        self.files = []
        for fd in list(self.fds):
            try:
                _os['close'](fd)
            except OSError:
                pass
        self.fds = {}

    def finalise_leaked(self, task=None):
        """Run the finaliser of files a failed operation left open (as garbage collection does)."""
        n = 0
        for f in list(self.files):
            if not f.closed and f.leak_candidate:
                n += 1
                try:
                    f.close()
                except (OSError, ValueError):
                    pass
        return n

    def mark_leaks(self, since, part=''):
        for f in self.files[since:]:
            if not f.closed and part in f._path:
                f.leak_candidate = True


def snapshot_dir(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        dn.sort()
        r = os.path.relpath(dp, root)
        if r != '.':
            out[r + '/'] = None
        for f in sorted(fn):
            p = os.path.join(dp, f)
            with real_open(p, 'rb') as h:
                out[os.path.normpath(os.path.join(r, f))] = h.read()
    return out


def wipe_dir(root):
    """Empty a scratch directory this process created (asserted to be one)."""
    assert '/dst.' in root, root
    for dp, dn, fn in os.walk(root, topdown=False):
        for f in fn:
            _os['unlink'](os.path.join(dp, f))
        for d in dn:
            p = os.path.join(dp, d)
            if os.path.islink(p):
                _os['unlink'](p)
            else:
                _os['rmdir'](p)


def restore_dir(root, image):
    wipe_dir(root)
    for rel in sorted(image):
        if rel.endswith('/'):
            _os['makedirs'](os.path.join(root, rel), exist_ok=True)
    for rel, data in image.items():
        if data is not None:
            p = os.path.join(root, rel)
            _os['makedirs'](os.path.dirname(p), exist_ok=True)
            with real_open(p, 'wb') as h:
                h.write(data)


def _err(code, path):
    return OSError(code, os.strerror(code), str(path))


class SimWriter(io.BufferedIOBase):
    """A buffered binary file opened for writing under the scratch directory."""

    def __init__(self, disk, path, flags, bufsize, fd=None, readable=False, append=False):
        self._fd = -1
        self._disk = disk
        self._path = path
        self._buf = bytearray()
        self._bufsize = bufsize
        self._readable = readable
        self._append = append
        self._closed = False
        self.leak_candidate = False
        self.mode = 'wb'
        self.name = path
        self._fd = fd if fd is not None else _os['open'](path, flags | getattr(os, 'O_CLOEXEC', 0), 0o666)
        disk.files.append(self)

    def _drop(self):
        if self._fd >= 0:
            try:
                _os['close'](self._fd)
            except OSError:
                pass
        self._fd = -1
        self._closed = True

    def __del__(self):
        pass

    @property
    def closed(self):
        return self._closed

    def writable(self):
        return True

    def readable(self):
        return self._readable

    def seekable(self):
        return True

    def fileno(self):
        self._check()
        return self._fd

    def isatty(self):
        return False

    def _check(self):
        if self._closed:
            raise ValueError('I/O operation on closed file.')

    def _raw_write(self, data):
        """One write system call; returns the number of bytes written."""
        d = self._disk
        f = d.event('write', self._path, len(data), ('enospc', 'eio', 'short', 'torn_enospc'))
        sim = d.sim
        n = len(data)
        if f == 'enospc':
            raise _err(errno.ENOSPC, self._path)
        if f == 'eio':
            raise _err(errno.EIO, self._path)
        if f in ('short', 'torn_enospc'):
            n = max(1, n // 2) if n > 1 else n
        if n > 1 and sim.me() is not None and not sim.suspended:
            # a kill in the middle of this write leaves a prefix
            d.e += 1
            hit = False
            if sim.replay:
                for x in sim._r_faults.get(d.e, ()):
                    if x[1] == 'torn':
                        hit = True
                        sim.trace.faults.append(list(x))
                        cut = max(1, int(n * x[2]))
            elif sim.params.crash_p and len(d.images) < sim.params.max_crash \
                    and sim.rng.random() < sim.params.crash_p:
                frac = round(sim.rng.random(), 3)
                cut = max(1, int(n * frac))
                hit = True
                sim.trace.faults.append([d.e, 'torn', frac])
            if hit:
                cut = min(cut, n)
                w = _os['write'](self._fd, bytes(data[:cut]))
                d.take_image('torn-write')
                sim.fault_counts['torn_write_crash'] = sim.fault_counts.get('torn_write_crash', 0) + 1
                if cut < n:
                    w += _os['write'](self._fd, bytes(data[cut:n]))
                if f == 'torn_enospc':
                    self._torn = w
                    raise _Partial(w, _err(errno.ENOSPC, self._path))
                return w
        w = _os['write'](self._fd, bytes(data[:n]))
        if f == 'torn_enospc':
            raise _Partial(w, _err(errno.ENOSPC, self._path))
        return w

    def _flush_buf(self):
        while self._buf:
            try:
                n = self._raw_write(self._buf)
            except _Partial as p:
                del self._buf[:p.n]
                raise p.err
            del self._buf[:n]

    def write(self, b):
        self._check()
        if isinstance(b, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        b = bytes(b)
        if self._bufsize and len(self._buf) + len(b) <= self._bufsize:
            self._buf += b
            return len(b)
        self._flush_buf()
        if self._bufsize and len(b) < self._bufsize:
            self._buf += b
        else:
            self._buf += b
            self._flush_buf()
        return len(b)

    def flush(self):
        if self._closed:
            raise ValueError('flush of closed file')
        self._flush_buf()

    def close(self):
        if self._closed:
            return
        try:
            if self._buf:
                self._flush_buf()
            f = self._disk.event('close', self._path, 0, ('close_eio',))
            if f:
                raise _err(errno.EIO, self._path)
        finally:
            self._closed = True
            fd, self._fd = self._fd, -1
            self._disk.fds.pop(fd, None)
            try:
                _os['close'](fd)
            except OSError:
                pass

    def seek(self, off, whence=0):
        self._check()
        self._flush_buf()
        return _os['lseek'](self._fd, off, whence)

    def tell(self):
        self._check()
        return _os['lseek'](self._fd, 0, 1) + len(self._buf)

    def truncate(self, size=None):
        self._check()
        self._flush_buf()
        if size is None:
            size = self.tell()
        self._disk.event('truncate', self._path, size)
        _os['ftruncate'](self._fd, size)
        return size

    def read(self, n=-1):
        if not self._readable:
            raise io.UnsupportedOperation('read')
        self._flush_buf()
        out = b''
        while n < 0 or len(out) < n:
            c = _os['read'](self._fd, 1 << 16 if n < 0 else n - len(out))
            if not c:
                break
            out += c
        return out

    read1 = read

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


class _Partial(Exception):
    def __init__(self, n, err):
        self.n = n
        self.err = err


READ_KINDS = ('read_eio', 'read_emfile', 'read_part')


class BadReader(io.RawIOBase):
    """A file on a disk that fails after half of its content."""

    def __init__(self, f):
        io.RawIOBase.__init__(self)
        with f:
            self._data = f.read()
        self._pos = 0
        self._end = len(self._data) // 2

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self._end - self._pos)
        if n <= 0:
            raise OSError(errno.EIO, 'Input/output error')
        b[:n] = self._data[self._pos:self._pos + n]
        self._pos += n
        return n


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim = SIM
    if sim is None or sim.me() is None or sim.suspended:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    d = sim.disk
    fd = None
    if isinstance(file, int):
        if file not in d.fds:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd = file
        path = d.fds[fd]
    else:
        if not d.inside(file):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = os.path.abspath(os.fspath(file))
    writing = any(c in mode for c in 'wax+')
    if not writing:
        f = d.event('open-r', path, 0, READ_KINDS)
        if f == 'read_part':
            # the error comes when some of the content has been read
            raw = io.BufferedReader(BadReader(real_open(path, 'rb')), 64)
            return raw if 'b' in mode else io.TextIOWrapper(raw, encoding or 'utf-8', errors, newline)
        if f:
            raise _err(errno.EMFILE if f == 'read_emfile' else errno.EIO, path)
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if fd is None:
        f = d.event('open-w', path, 0, ('open_emfile', 'open_eio', 'open_enospc'))
        if f == 'open_emfile':
            raise _err(errno.EMFILE, path)
        if f == 'open_eio':
            raise _err(errno.EIO, path)
        if f == 'open_enospc':
            raise _err(errno.ENOSPC, path)
        flags = 0
        rd = '+' in mode
        flags |= os.O_RDWR if rd else os.O_WRONLY
        if 'w' in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        elif 'x' in mode:
            flags |= os.O_CREAT | os.O_EXCL
        elif 'a' in mode:
            flags |= os.O_CREAT | os.O_APPEND
        if opener is not None:
            fd = opener(path, flags)
    else:
        flags = 0
        rd = '+' in mode
    size = sim.params.bufsize if buffering in (-1, 1) or buffering > 1 else 0
    raw = SimWriter(d, path, flags, size, fd=fd, readable=rd, append='a' in mode)
    if 'b' in mode:
        return raw
    tw = io.TextIOWrapper(raw, encoding or 'utf-8', errors, newline, line_buffering=(buffering == 1))
    return tw


def _wrap_path_op(name, kinds):
    real = _os[name]

    def f(path, *a, **kw):
        sim = SIM
        if sim is None or sim.me() is None or sim.suspended or isinstance(path, int) or not sim.disk.inside(path):
            return real(path, *a, **kw)
        flt = sim.disk.event(name, path, 0, kinds)
        if flt:
            raise _err(errno.ENOSPC if 'enospc' in flt else errno.EIO, path)
        r = real(path, *a, **kw)
        if sim.disk.on_event is not None:
            sim.suspended += 1
            try:
                sim.disk.on_event(name + '-done', sim.disk.rel(path), sim.me())
            finally:
                sim.suspended -= 1
        return r
    f.__name__ = name
    return f


def _wrap_rename(name):
    real = _os[name]

    def f(src, dst, *a, **kw):
        sim = SIM
        if sim is None or sim.me() is None or sim.suspended or not sim.disk.inside(dst):
            return real(src, dst, *a, **kw)
        flt = sim.disk.event(name, dst, 0, ('rename_eio', 'rename_enospc'))
        if flt:
            raise _err(errno.ENOSPC if 'enospc' in flt else errno.EIO, dst)
        r = real(src, dst, *a, **kw)
        if sim.disk.on_event is not None:
            sim.suspended += 1
            try:
                sim.disk.on_event(name + '-done', sim.disk.rel(dst), sim.me())
            finally:
                sim.suspended -= 1
        return r
    f.__name__ = name
    return f


def _patch_disk():
    builtins.open = _sim_open
    io.open = _sim_open
    import numpy.lib._datasource as ds
    ds._file_openers._file_openers[None] = _sim_open
    for n, kinds in (('remove', ('unlink_eio',)), ('unlink', ('unlink_eio',)), ('mkdir', ('mkdir_enospc',)),
                     ('rmdir', ()), ('truncate', ()), ('utime', ()), ('chmod', ())):
        setattr(os, n, _wrap_path_op(n, kinds))
    for n in ('replace', 'rename', 'link', 'symlink'):
        setattr(os, n, _wrap_rename(n))

    def sim_os_open(path, flags, mode=0o777, **kw):
        sim = SIM
        if sim is None or sim.me() is None or sim.suspended or not sim.disk.inside(path):
            return _os['open'](path, flags, mode, **kw)
        wr = flags & (os.O_WRONLY | os.O_RDWR)
        if wr:
            f = sim.disk.event('open-w', path, 0, ('open_emfile', 'open_eio', 'open_enospc'))
            if f:
                raise _err(errno.EIO if f == 'open_eio' else (errno.EMFILE if f == 'open_emfile' else errno.ENOSPC),
                           path)
        fd = _os['open'](path, flags, mode, **kw)
        if wr:
            sim.disk.fds[fd] = os.path.abspath(os.fspath(path))
        return fd
    os.open = sim_os_open

    def sim_os_write(fd, data):
        sim = SIM
        if sim is None or sim.me() is None or sim.suspended or fd not in sim.disk.fds:
            return _os['write'](fd, data)
        f = sim.disk.event('write', sim.disk.fds[fd], len(data), ('enospc', 'eio', 'short', 'torn_enospc'))
        if f in ('enospc', 'torn_enospc'):
            raise _err(errno.ENOSPC, sim.disk.fds[fd])
        if f == 'eio':
            raise _err(errno.EIO, sim.disk.fds[fd])
        n = len(data)
        if f == 'short' and n > 1:
            n //= 2
        return _os['write'](fd, bytes(data)[:n])
    os.write = sim_os_write

    def sim_os_close(fd):
        sim = SIM
        if sim is not None and fd in sim.disk.fds:
            p = sim.disk.fds.pop(fd)
            f = sim.disk.event('close', p, 0, ('close_eio',))
            _os['close'](fd)
            if f:
                raise _err(errno.EIO, p)
            return
        return _os['close'](fd)
    os.close = sim_os_close

    def mk_sync(name):
        real = _os[name]

        def f(fd):
            sim = SIM
            if sim is not None and sim.me() is not None and not sim.suspended:
                path = None
                for w in sim.disk.files:
                    if w._fd == fd or w is fd:
                        path = w._path
                if path is None and not isinstance(fd, int) and hasattr(fd, 'fileno'):
                    fd = fd.fileno()
                path = path or sim.disk.fds.get(fd)
                if path is not None:
                    flt = sim.disk.event(name, path, 0, ('fsync_eio',))
                    if flt:
                        raise _err(errno.EIO, path)
                    return None
            return real(fd)
        return f
    os.fsync = mk_sync('fsync')
    os.fdatasync = mk_sync('fdatasync')

    def sim_getpid():
        return 4242 if SIM is not None else _os['getpid']()
    os.getpid = sim_getpid

    real_count, real_aff = os.cpu_count, getattr(os, 'sched_getaffinity', None)

    def cpu_count():
        return SIM.params.cpus if SIM is not None else real_count()

    def sched_getaffinity(pid):
        return set(range(SIM.params.cpus)) if SIM is not None else real_aff(pid)
    os.cpu_count = cpu_count
    if real_aff is not None:
        os.sched_getaffinity = sched_getaffinity
    import multiprocessing
    multiprocessing.cpu_count = cpu_count

    def sim_urandom(n):
        sim = SIM
        if sim is None:
            return _os['urandom'](n)
        c = sim.coin_n.get('urandom', 0)
        sim.coin_n['urandom'] = c + 1
        return (hashlib.sha256(b'%d' % c).digest() * (n // 32 + 1))[:n]
    os.urandom = sim_urandom
    import shutil
    shutil._USE_CP_SENDFILE = False
    import tempfile
    tempfile._io.open = _sim_open
    import pathlib
    acc = getattr(pathlib, '_NormalAccessor', None)
    if acc is not None:
        for n in ('replace', 'rename', 'unlink', 'mkdir', 'rmdir', 'open', 'chmod', 'utime'):
            if hasattr(acc, n):
                setattr(acc, n, staticmethod(getattr(os, n)))
    try:
        import importlib
        from numpy.lib import _datasource
        _datasource._file_openers._loaded = False
        _datasource._file_openers._file_openers = {None: _sim_open}
        del importlib
    except Exception:
        pass


_installed = False


def install():
    """Install every seam. Must run before alipy is imported."""
    global _installed
    if _installed:
        return
    if 'alipy' in sys.modules:
        raise HarnessError('alipy imported before the seams')
    _installed = True
    # dependencies first: they keep the real primitives
    import numpy            # noqa: F401
    import sklearn          # noqa: F401
    import sklearn.linear_model, sklearn.ensemble, sklearn.svm, sklearn.neighbors, sklearn.metrics  # noqa
    import scipy, scipy.stats, scipy.io, scipy.linalg  # noqa
    import prettytable      # noqa
    import matplotlib       # noqa
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa
    import copy, pickle, warnings, tempfile, shutil, pathlib, uuid, json, zipfile, gzip  # noqa
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    _patch_clocks()
    _patch_threads()
    _patch_disk()
    _patch_untraced()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import alipy            # noqa
    import alipy.experiment, alipy.utils.multi_thread, alipy.oracle, alipy.query_strategy, alipy.data_manipulate  # noqa
    import pkgutil
    for mod in pkgutil.walk_packages(alipy.__path__, 'alipy.'):
        try:
            __import__(mod.name)
        except ImportError:
            pass
    for enc in ('ascii', 'utf8', 'latin-1', 'backslashreplace'):
        try:
            'x'.encode(enc)
        except LookupError:
            pass
    warnings.simplefilter('ignore')
    if not os.path.abspath(alipy.__file__).startswith(REPO + os.sep):
        raise HarnessError('alipy was imported from %s, not from %s' % (alipy.__file__, REPO))
