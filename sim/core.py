"""The simulator: one baton, a seeded scheduler, and fault injection at every line/call/instruction of numga.

Simulated tasks are real threads of which exactly one runs at any time (the holder of the baton).  Every monitored
event inside numga's code is a decision point.  A decision is addressed by (operation id, k) - the k-th event inside
that operation - so a recorded schedule is a list of decisions that can be replayed and minimised.
"""
import contextlib
import dis
import gc
import opcode
import random
import sys
from _thread import allocate_lock as real_lock, get_ident, start_new_thread, stack_size

from . import seams

MON = sys.monitoring
TOOL = 4
EV = MON.events
MODES = {'call': EV.PY_START | EV.CALL, 'line': EV.LINE | EV.PY_START, 'instr': EV.INSTRUCTION,
         'both': EV.LINE | EV.PY_START | EV.CALL, 'off': 0}
MASK = (1 << 61) - 1


def spread_call(ci, pos):
    """f(*args): CPython 3.12 corrupts memory when a monitoring callback raises before such a call, so no fault goes there"""
    key = (ci, pos)
    r = SPREAD.get(key)
    if r is None:
        r = SPREAD[key] = pos < STARTS and seams.CODES[ci].co_code[pos - CALLS] == CALL_FUNCTION_EX
    return r


SPREAD = {}
CALLS, STARTS, INSTRS = 100000, 200000, 300000      # a position is a line number, or one of these plus an offset


def guarded_lines(ci):
    """lines that take or give back a lock: CPython delivers no signal between taking a lock in a with statement and its body,
    nor between the end of the body and giving the lock back, and neither of these allocates; so no fault goes there"""
    r = GUARDED.get(ci)
    if r is None:
        r = GUARDED[ci] = set()
        line = None
        for i in dis.get_instructions(seams.CODES[ci]):
            if i.positions and i.positions.lineno is not None:
                line = i.positions.lineno
            if i.opname in ('BEFORE_WITH', 'WITH_EXCEPT_START') or i.opname in ('LOAD_ATTR', 'LOAD_METHOD') and i.argval in ('release', '__exit__', '__enter__'):
                r.add(line)
    return r


def guarded(ci, pos):
    g = guarded_lines(ci)
    if not g:
        return False
    if pos >= CALLS:
        key = (ci, pos)
        if key not in LINE_OF:
            off = pos % CALLS
            LINE_OF[key] = next((l for a, b, l in seams.CODES[ci].co_lines() if a <= off < b), None)
        pos = LINE_OF[key]
    return pos in g


GUARDED, LINE_OF = {}, {}
CALL_FUNCTION_EX = opcode.opmap['CALL_FUNCTION_EX']


class SimInterrupt(KeyboardInterrupt):
    """an injected interrupt (ctrl-C, cancelled request, killed notebook cell)"""


class SimMemoryError(MemoryError):
    """an injected allocation failure"""


class Deadlock(Exception):
    pass


class Livelock(BaseException):
    pass


class Abort(BaseException):
    """the run is over; unwinds a parked task"""


INJECTED = (SimInterrupt, SimMemoryError)


class Task:
    def __init__(self, idx):
        self.idx = idx
        self.lock = real_lock()
        self.lock.acquire()
        self.ident = None
        self.done = False
        self.blocked = None
        self.parked = False
        self.prio = idx
        self.op = None
        self.k = 0
        self.on = False         # inside an operation (events count)
        self.at = None          # where it was preempted

    def __repr__(self):
        return f'T{self.idx}'


class Sim:
    def __init__(self, seed=0, mode='line', strategy=('none',), faults=None, explicit=None, max_events=20_000_000):
        """strategy: ('none',) | ('rw', p) | ('rr', q) | ('pct', depth, horizon) | ('park', n) |
        ('hot', one in n, p, 'line' | 'fn')
        faults: None | {'ops': {op id: [kind, ...]}, 'rate': p, 'new': p_new}
        explicit: {'switches': [[op, k, task]], 'ends': [[op, task]], 'faults': [[op, k, kind]]} replays exactly these"""
        self.seed, self.mode, self.strategy = seed, mode, strategy
        self.rng = random.Random(f'sched:{seed}')
        self.frng = random.Random(f'fault:{seed}')
        self.explicit = explicit
        self.faultspec = faults if not explicit else None
        self.max_events = max_events
        self.tasks = []
        self.cur = None
        self.loc = None
        self.events = 0
        self.digest = 0
        self.switches, self.ends, self.fired, self.fire_locs = [], [], [], []
        self.seen = set()
        self.n_switch = 0
        self.main = real_lock()
        self.main.acquire()
        self.error = None
        self.over = False
        self.clock = 0
        self.opcounts = {}
        self.history = []
        self.final = []
        self.gcs = 0
        self.pairs = set()      # (where a task was preempted, where the resumed task had been preempted)
        if explicit is not None:
            self.xs = {}
            for o, k, t in explicit.get('switches', []):
                self.xs[(o, k)] = t
            self.xe = {o: t for o, t in explicit.get('ends', [])}
            self.xf = {}
            for o, k, kind in explicit.get('faults', []):
                self.xf[(o, k)] = kind
        else:
            self.xs = self.xe = self.xf = None
        st = strategy[0]
        self.p = strategy[1] if st == 'rw' else 0
        self.q = strategy[1] if st == 'rr' else 0
        self.change = set()
        self.parkset = set()
        if st == 'pct':
            self.change = set(self.rng.sample(range(1, max(strategy[2], strategy[1] + 2)), strategy[1]))
        if st == 'park':
            self.park_at = strategy[1]
        self.salt = self.rng.getrandbits(40) if st == 'hot' else 0
        self.hot = {}           # ('hot', one in n, p, by): some places of the code are contended, in every visit
        self.use_sched = st != 'none' and explicit is None

    # ---------------------------------------------------------------------------------- monitoring
    def instrument(self, code):
        MON.set_local_events(TOOL, code, MODES[self.mode])

    def start_monitoring(self):
        MON.use_tool_id(TOOL, 'numga-sim')
        idx = seams.CODE_IDX
        hit = self.hit
        ident = get_ident

        def on_line(code, line):
            t = self.cur
            if t is not None and t.on and ident() == t.ident:
                hit(t, idx.get(code, 0), line)

        def on_start(code, off):
            t = self.cur
            if t is not None and t.on and ident() == t.ident:
                hit(t, idx.get(code, 0), off + STARTS)

        def on_instr(code, off):
            t = self.cur
            if t is not None and t.on and ident() == t.ident:
                hit(t, idx.get(code, 0), off + INSTRS)

        MON.register_callback(TOOL, EV.LINE, on_line)
        MON.register_callback(TOOL, EV.PY_START, on_start)
        MON.register_callback(TOOL, EV.INSTRUCTION, on_instr)

        def on_call(code, off, fn, arg0):
            t = self.cur
            if t is not None and t.on and ident() == t.ident:
                hit(t, idx.get(code, 0), off + CALLS)
        MON.register_callback(TOOL, EV.CALL, on_call)
        for c in seams.CODES:
            MON.set_local_events(TOOL, c, MODES[self.mode])
        seams.SIM = self

    def stop_monitoring(self):
        seams.SIM = None
        for c in seams.CODES:
            MON.set_local_events(TOOL, c, 0)
        for e in (EV.LINE, EV.PY_START, EV.INSTRUCTION, EV.CALL):
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)

    # ---------------------------------------------------------------------------------- decisions
    def hit(self, t, ci, pos):
        if self.over:
            raise Abort()
        self.events += 1
        t.k += 1
        k = t.k
        self.digest = (self.digest * 1000003 ^ (t.idx << 44) ^ (ci << 24) ^ pos) & MASK
        self.loc = (ci, pos)
        if self.events > self.max_events:
            t.on = False
            raise Livelock(f'no progress: {self.max_events} events without finishing (op {t.op})')
        if self.xs is not None:
            if self.xf:
                f = self.xf.get((t.op, k))
                if f is not None:
                    self.fire(t, k, f)
            if self.xs:
                j = self.xs.get((t.op, k))
                if j is not None and j < len(self.tasks):
                    o = self.tasks[j]
                    if o is not t and not o.done and o.blocked is None:
                        self.switches.append([t.op, k, j])
                        self.switch(t, o)
            return
        new = False
        if self.faultspec is not None or self.strategy[0] == 'park':
            loc = (ci, pos)
            if loc not in self.seen:
                self.seen.add(loc)
                new = True
        fs = self.faultspec
        if fs is not None:
            kinds = fs['ops'].get(t.op)
            if kinds:
                p = fs['new'] if new else fs['rate']
                if p > 0 and self.frng.random() < p and not (pos >= CALLS and spread_call(ci, pos)) and not guarded(ci, pos) and not (self.spare and self.spared()):
                    kind = kinds.pop(0)
                    self.fire(t, k, kind)
        if self.use_sched:
            o = self.pick(t, new)
            if o is not None and o is not t:
                self.switches.append([t.op, k, o.idx])
                self.switch(t, o)

    spare = ()          # functions (numga's or jax's own) that foreign native code calls while it holds its own locks: no fault goes there

    def spared(self):
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_name in self.spare:
                return True
            f = f.f_back
        return False

    def runnable(self):
        return [x for x in self.tasks if not x.done and x.blocked is None]

    def pick(self, t, new):
        st = self.strategy[0]
        if st == 'rw':
            if self.rng.random() >= self.p:
                return None
            r = [x for x in self.runnable() if x is not t]
            return self.rng.choice(r) if r else None
        if st == 'rr':
            if self.events % self.q:
                return None
            n = len(self.tasks)
            for d in range(1, n):
                x = self.tasks[(t.idx + d) % n]
                if not x.done and x.blocked is None:
                    return x
            return None
        if st == 'pct':
            if self.events in self.change:
                t.prio = -1 - len([x for x in self.tasks if x.prio < 0])
                return max(self.runnable(), key=lambda x: x.prio)
            return None
        if st == 'park':
            if new:
                self.park_at -= 1
                if self.park_at == 0:
                    t.parked = True
                    self.park_at = self.rng.randint(1, 60)
                    r = [x for x in self.runnable() if x is not t and not x.parked]
                    if not r:
                        for x in self.tasks:
                            x.parked = False
                        r = [x for x in self.runnable() if x is not t]
                    return self.rng.choice(r) if r else None
            return None
        if st == 'hot':
            ci, pos = self.loc
            key = ci if self.strategy[3] == 'fn' else (ci, pos)
            h = self.hot.get(key)
            if h is None:
                h = self.hot[key] = (hash((ci, 0 if self.strategy[3] == 'fn' else pos, self.salt)) >> 7) % self.strategy[1] == 0
            if not h or self.rng.random() >= self.strategy[2]:
                return None
            r = [x for x in self.runnable() if x is not t]
            return self.rng.choice(r) if r else None
        return None

    def fire(self, t, k, kind):
        self.fired.append([t.op, k, kind])
        self.fire_locs.append((self.loc, kind))
        if kind == 'intr':
            raise SimInterrupt(f'injected at {t.op}#{k}')
        if kind == 'mem':
            raise SimMemoryError(f'injected at {t.op}#{k}')
        if kind == 'gc':
            self.gcs += 1
            t.on = False
            try:
                gc.collect()
            finally:
                t.on = True
            return
        if kind.startswith('clock'):
            seams.Ambient.now += {'clock+': 86400.0 * 40, 'clock-': -86400.0 * 40}[kind]
            return
        raise KeyError(kind)

    # ---------------------------------------------------------------------------------- baton
    def switch(self, t, o):
        self.n_switch += 1
        t.at = self.loc
        self.pairs.add((t.at, o.at))
        self.cur = o
        o.lock.release()
        t.lock.acquire()
        if self.over:
            t.on = False
            raise Abort()

    def block_on(self, lock, timeout):
        t = self.cur
        t.blocked = lock
        r = self.runnable()
        if not r:
            t.blocked = None
            if timeout is not None and timeout > 0:
                seams.Ambient.now += timeout
                return False
            raise Deadlock(f'all tasks blocked; {t} waits for a lock held by {lock.owner}')
        self.switch(t, r[0] if self.xs is not None or not self.use_sched else self.rng.choice(r))
        return True

    def unblock(self, lock):
        for x in self.tasks:
            if x.blocked is lock:
                x.blocked = None

    # ---------------------------------------------------------------------------------- operations
    def begin(self, op):
        t = self.cur
        t.op, t.k = op, 0
        self.clock += 1
        self.history.append((self.clock, t.idx, 'begin', op))
        t.on = True

    def end(self):
        t = self.cur
        t.on = False
        self.opcounts[t.op] = t.k
        self.clock += 1
        self.history.append((self.clock, t.idx, 'end', t.op))

    class _Masked:
        def __init__(self, sim): self.sim = sim
        def __enter__(self):
            t = self.sim.cur
            self.t, self.was = t, t.on if t else False
            if t: t.on = False
        def __exit__(self, *a):
            if self.t: self.t.on = self.was

    def masked(self):
        return self._Masked(self)

    class _Quiet:
        def __init__(self, sim): self.sim = sim
        def __enter__(self):
            self.n = len(seams.CODES)
            for c in seams.CODES:
                MON.set_local_events(TOOL, c, 0)
        def __exit__(self, *a):
            for c in seams.CODES:
                MON.set_local_events(TOOL, c, MODES[self.sim.mode])

    def quiet(self):
        """for a stretch where only one task exists and no fault is due: real code at full speed, no decision points"""
        return self._Quiet(self) if len(self.tasks) == 1 else contextlib.nullcontext()

    def run(self, bodies):
        """run the task bodies (callables) to completion; returns when all are done"""
        self.tasks = [Task(i) for i in range(len(bodies))]
        if self.strategy[0] == 'pct':
            order = list(range(len(bodies)))
            self.rng.shuffle(order)
            for x, p in zip(self.tasks, order):
                x.prio = p
        self.start_monitoring()
        try:
            if len(bodies) == 1:
                t = self.tasks[0]
                t.ident = get_ident()
                self.cur = t
                try:
                    bodies[0]()
                finally:
                    t.on = False
                    t.done = True
                    self.cur = None
            else:
                for t, b in zip(self.tasks, bodies):
                    start_new_thread(self._boot, (t, b))
                first = self.next_task('start', self.tasks)
                self.cur = first
                first.lock.release()
                self.main.acquire()
                self.cur = None
        finally:
            self.stop_monitoring()
        if self.error is not None:
            raise self.error

    def next_task(self, key, cand):
        if self.xe is not None:
            j = self.xe.get(key)
            for x in cand:
                if x.idx == j:
                    return x
            return cand[0]
        if self.strategy[0] == 'pct':
            o = max(cand, key=lambda x: x.prio)
        elif self.use_sched:
            un = [x for x in cand if not x.parked] or cand
            o = self.rng.choice(un)
        else:
            o = cand[0]
        self.ends.append([key, o.idx])
        return o

    def _boot(self, t, body):
        t.ident = get_ident()
        t.lock.acquire()
        try:
            if not self.over:
                body()
        except Abort:
            pass
        except BaseException as e:      # deadlock, livelock, harness error: the run is over
            if self.error is None:
                self.error = e
            self.over = True
        t.on = False
        t.done = True
        if self.over:
            live = [x for x in self.tasks if not x.done]
            for x in live:
                x.blocked = None
        else:
            live = self.runnable()
            if not live and any(not x.done for x in self.tasks):
                self.error = Deadlock('remaining tasks wait for a lock whose owner has finished')
                self.over = True
                live = [x for x in self.tasks if not x.done]
                for x in live:
                    x.blocked = None
        if live:
            o = self.next_task(f'end{t.idx}', live) if not self.over else live[0]
            self.cur = o
            o.lock.release()
        else:
            self.main.release()

    def record(self):
        """the decisions actually taken, sufficient to replay the run"""
        return {'switches': self.switches, 'ends': self.ends if self.xe is None else [[k, v] for k, v in self.xe.items()],
                'faults': self.fired, 'mode': self.mode}
