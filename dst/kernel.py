"""The simulator kernel: choice streams, virtual time, and a cooperative
scheduler that owns every thread switch.

Simulated threads are real OS threads, but exactly one of them runs at a time:
it holds the "baton".  A switch releases the baton of the chosen thread and
parks the current one.  Who runs next, when a thread is preempted and how far
virtual time moves is decided here, from the run's choice streams only.
"""
import _thread
import hashlib
import heapq
import random

_alloc = _thread.allocate_lock
_start_new_thread = _thread.start_new_thread

US = 1000
MS = 1000 * US
SEC = 1000 * MS

K = None  # the active kernel, None outside a run

RUNNABLE, BLOCKED, DEAD = 0, 1, 2
BIG = 1 << 60
CPU_SLICE = 20000  # monitored steps without any preemption before CPU time is charged


class SimAbort(BaseException):
    """raised in the driver thread when the run's step budget is exhausted"""


class HarnessError(Exception):
    pass


class Choices:
    """Every random decision of a run. One independent PRNG per label, all
    derived from one integer; outcomes are recorded per label so that a run can
    be replayed (and shrunk) from the recorded outcomes alone. Outcome 0 is
    always the most benign one; an exhausted replay list yields 0."""

    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = replay
        self.trace = {}
        self._rngs = {}

    def rng(self, label):
        r = self._rngs.get(label)
        if r is None:
            r = self._rngs[label] = random.Random("%s/%s" % (self.seed, label))
        return r

    def _draw(self, label, gen, hi=None):
        lst = self.trace.get(label)
        if lst is None:
            lst = self.trace[label] = []
        if self.replay is not None:
            rl = self.replay.get(label)
            i = len(lst)
            v = rl[i] if rl is not None and i < len(rl) else 0
            if hi is not None and v >= hi:
                v = hi - 1
            if v < 0:
                v = 0
        else:
            v = gen(self.rng(label))
        lst.append(v)
        return v

    def int(self, label, n):
        """uniform in [0, n)"""
        if n <= 1:
            return 0
        return self._draw(label, lambda r: r.randrange(n), n)

    def gen(self, label, gen, n):
        """custom generator with outcomes in [0, n)"""
        if n <= 1:
            return 0
        return self._draw(label, gen, n)

    def range(self, label, lo, hi):
        return lo + self.int(label, hi - lo + 1)

    def bool(self, label, p):
        if p <= 0:
            return False
        return bool(self._draw(label, lambda r: 1 if r.random() < p else 0, 2))

    def pick(self, label, seq, weights=None):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        if weights is None:
            return seq[self.int(label, len(seq))]
        tot = float(sum(weights))

        def g(r):
            x = r.random() * tot
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    return i
            return len(weights) - 1
        return seq[self._draw(label, g, len(seq))]

    def geo(self, label, mean):
        """geometric >= 1; recorded 0 means 'never'"""
        def g(r):
            u = r.random()
            import math
            return max(1, int(math.log(1.0 - u) / math.log(1.0 - 1.0 / mean))) if mean > 1 else 1
        return self._draw(label, g)

    def logint(self, label, hi):
        """log-uniform integer in [0, hi]"""
        if hi <= 0:
            return 0
        nb = hi.bit_length()

        def g(r):
            b = r.randrange(nb + 1)
            return min(hi, r.randrange(1 << b)) if b else 0
        return self._draw(label, g, hi + 1)


class Node:
    def __init__(self, name, ip):
        self.name = name
        self.ip = ip
        self.alive = True
        self.paused = False
        self.wall_offset = 0
        self.epoch = 0  # incremented on restart
        self.http = None  # sidecar control endpoint seen by requests
        self.emfile = 0  # number of coming socket()/accept() calls that fail
        self.noname = False  # its own host name does not resolve
        self.nothreads = 0  # number of coming thread starts that fail
        self.errors = []

    def __repr__(self):
        return self.name


class SimThread:
    __slots__ = ("tid", "name", "node", "baton", "state", "woken", "token", "abort",
                 "prio", "turns", "spin", "cpu", "lastsite", "sentinel", "why", "started")

    def __init__(self, tid, name, node):
        self.tid = tid
        self.name = name
        self.node = node
        self.baton = _alloc()
        self.baton.acquire()
        self.state = RUNNABLE
        self.woken = False
        self.token = 0
        self.abort = False
        self.prio = 0
        self.turns = 0
        self.spin = 0
        self.cpu = 0
        self.sentinel = None
        self.why = None

    def __repr__(self):
        return "<%d:%s>" % (self.tid, self.name)


class Kernel:
    TICK = 1 * US

    def __init__(self, choices, max_yields=250000, max_lines=2500000):
        self.ch = choices
        self.now = 1000 * SEC
        self.t0 = self.now
        self.epoch_wall = 1_700_000_000 * SEC
        self.timers = []
        self.seq = 0
        self.threads = []
        self.runq = []
        self.depth = 0
        self.nodes = {}
        self.log = []
        self.logging = True
        self.yields = 0
        self.switches = 0
        self.preempts = 0
        self.lines = 0
        self.max_yields = max_yields
        self.max_lines = max_lines
        self.quantum = BIG
        self.quantum0 = BIG
        self.policy = "block"
        self.qmean = 30
        self.stall_p = 0.0
        self.stall_max = 2 * MS
        self.stall_budget = 0
        self.stalled = 0
        self.aborted = None
        self.harness_error = None
        self.faults = {}
        self.probes = {}
        self.sitepairs = set()
        self.sched_hash = hashlib.sha1()
        self.uncaught = []
        self.loops = []
        self.finished = False
        node = self.node("main")
        self.main = SimThread(0, "main", node)
        self.threads.append(self.main)
        self.runq.append(self.main)
        self.current = self.main

    # ---- configuration of the scheduler -------------------------------------------------
    def configure(self, policy, qmean, stall_p=0.0, stall_budget_ms=0, stall_max_ms=2):
        self.policy = policy
        self.qmean = qmean
        self.stall_p = stall_p
        self.stall_budget = int(stall_budget_ms * MS)
        self.stall_max = int(stall_max_ms * MS)
        self._new_quantum()

    def random_policy(self, label="policy", fine=False, stalls=True):
        """draw a swarm-style scheduling policy for this run"""
        ch = self.ch
        policy = ch.pick(label, ["block", "random", "pct"], [1, 5, 2])
        qmean = ch.pick(label, [1000, 300, 100, 30, 10, 4, 2] if fine else [1000, 300, 100, 30, 10])
        sp = ch.pick(label, [0.0, 0.02, 0.15], [3, 2, 1]) if stalls else 0.0
        self.configure(policy, qmean, sp, 40 if sp else 0, ch.pick(label, [2, 15], [2, 1]) if sp else 2)
        return dict(policy=policy, qmean=qmean, stall=sp)

    @property
    def slack(self):
        """virtual ns by which scheduling alone may have delayed anything so far"""
        return self.stalled

    # ---- bookkeeping ----------------------------------------------------------------------
    def node(self, name):
        n = self.nodes.get(name)
        if n is None:
            n = self.nodes[name] = Node(name, "10.0.0.%d" % (len(self.nodes) + 1))
        return n

    def node_by_ip(self, ip):
        for n in self.nodes.values():
            if n.ip == ip:
                return n
        return None

    def ev(self, kind, *args):
        if self.logging:
            self.log.append(((self.now - self.t0) // US, self.current.tid, kind) + args)

    def fault(self, kind, *args):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.ev("FAULT", kind, *args)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def log_hash(self):
        h = hashlib.sha1()
        for e in self.log:
            h.update(repr(e).encode("utf-8", "backslashreplace"))
        h.update(self.sched_hash.digest())
        return h.hexdigest()

    # ---- timers ---------------------------------------------------------------------------
    def at(self, t, fn, *args):
        self.seq += 1
        heapq.heappush(self.timers, (max(t, self.now), self.seq, fn, args))

    def after(self, d, fn, *args):
        self.at(self.now + d, fn, *args)

    def _fire_due(self):
        timers = self.timers
        while timers and timers[0][0] <= self.now:
            _, _, fn, args = heapq.heappop(timers)
            self.depth += 1
            try:
                fn(*args)
            except Exception:  # an error in simulator code is never a verdict
                import traceback
                self.harness_error = traceback.format_exc()
                self._abort("harness")
            finally:
                self.depth -= 1

    # ---- threads --------------------------------------------------------------------------
    def spawn(self, fn, args=(), kwargs=None, name=None, node=None):
        """start a simulated thread running fn; returns its SimThread"""
        t = SimThread(len(self.threads), name or "t", node or self.current.node)
        self.threads.append(t)
        if self.policy == "pct":
            t.prio = self.ch.rng("prio").random()
        t.sentinel = None

        def body():
            t.baton.acquire()
            try:
                if t.state != DEAD:
                    fn(*args, **(kwargs or {}))
            except SystemExit:
                pass
            except BaseException:
                import traceback
                self.uncaught.append((t.name, traceback.format_exc()))
            finally:
                self._thread_exit(t)

        _start_new_thread(body, ())
        self.runq.append(t)
        self.ev("spawn", t.tid, t.name)
        return t

    def _thread_exit(self, t):
        if t.state == DEAD:
            # killed while parked and then let go: cannot happen (killed threads stay parked)
            return
        self.ev("exit", t.tid)
        t.state = DEAD
        if t in self.runq:
            self.runq.remove(t)
        s = t.sentinel
        if s is not None:
            t.sentinel = None
            s._force_release()
        nxt = self._choose(None)
        self._handoff(nxt)

    def kill_node_threads(self, node):
        for t in self.threads:
            if t.node is node and t.state != DEAD and t is not self.main:
                t.state = DEAD
                if t in self.runq:
                    self.runq.remove(t)

    def wake(self, t):
        if t.state == BLOCKED:
            t.state = RUNNABLE
            t.woken = True
            self.runq.append(t)

    def _timeout_wake(self, t, token):
        if t.state == BLOCKED and t.token == token:
            t.state = RUNNABLE
            t.woken = False
            self.runq.append(t)

    def block(self, deadline=None, why=None):
        """park the current thread until woken (True) or until deadline (False)"""
        t = self.current
        if self.depth:
            raise HarnessError("blocking inside the kernel: %s" % (why,))
        if self.finished:
            raise SystemExit
        t.token += 1
        t.state = BLOCKED
        t.woken = False
        t.spin = t.turns = 0
        t.why = why
        self.runq.remove(t)
        if deadline is not None:
            self.at(deadline, self._timeout_wake, t, t.token)
        self._switch(None)
        t.why = None
        if t.abort:
            t.abort = False
            raise SimAbort(self.aborted)
        return t.woken

    def sleep(self, ns):
        self.block(self.now + max(0, ns), "sleep")

    # ---- scheduling -----------------------------------------------------------------------
    def _abort(self, why):
        if self.aborted is None:
            self.aborted = why
            self.ev("ABORT", why)
        m = self.main
        m.abort = True
        if m.state == BLOCKED:
            self.wake(m)

    def _new_quantum(self):
        if self.policy == "block":
            q = BIG
        elif self.policy == "pct":
            # a few priority change points at random depths
            q = self.ch.geo("q", self.qmean * 4)
        else:
            q = self.ch.geo("q", self.qmean)
        if q <= 0:
            q = BIG
        if q > CPU_SLICE:
            q = CPU_SLICE
        self.quantum = self.quantum0 = q

    def _choose(self, cur):
        """pick the next thread to run; cur (if not None) is runnable and preferred"""
        while True:
            self._fire_due()
            rq = self.runq
            if self.aborted and self.main.state == RUNNABLE:
                return self.main
            cand = [t for t in rq if not t.node.paused]
            n = len(cand)
            if n:
                if n == 1:
                    return cand[0]
                if cur is not None and cur in cand:
                    cand.remove(cur)
                    cand.insert(0, cur)
                if self.policy == "block":
                    i = 0
                elif self.policy == "pct":
                    i = self.ch.gen("sched", lambda r: max(range(n), key=lambda j: cand[j].prio), n)
                else:
                    i = self.ch.int("sched", n)
                return cand[i]
            if not self.timers:
                # nothing can ever happen again: hand the deadlock to the driver
                self._abort("deadlock")
                continue
            t = self.timers[0][0]
            if t > self.now:
                self.now = t

    def _handoff(self, nxt):
        prev = self.current
        self.switches += 1
        self.current = nxt
        self._new_quantum()
        self.sched_hash.update(b"%d>%d;" % (prev.tid, nxt.tid))
        nxt.baton.release()

    def _switch(self, cur):
        me = self.current
        nxt = self._choose(cur)
        if nxt is me:
            self._new_quantum()
            return
        self._handoff(nxt)
        me.baton.acquire()
        # running again

    def preempt(self, site=None):
        """the current thread may lose the processor here"""
        me = self.current
        me.cpu += self.quantum0
        if me.cpu >= CPU_SLICE:
            # a long burst of code without a system call: charge CPU time,
            # growing while it lasts, so that a busy loop cannot stop the clock
            charge = min((2 * MS) << min(max(me.cpu // CPU_SLICE - 30, 0), 12), 5 * SEC)
            self.now += charge * self.quantum0 // CPU_SLICE
        self.preempts += 1
        if self.policy == "pct" and self.ch.replay is None:
            me.prio = self.ch.rng("prio").random() * 0.5
            me.turns += 1
            if me.turns > 50:       # a spinning thread must not starve the one it waits for
                me.prio = min(t.prio for t in self.runq) * 0.9 if self.runq else 0
        if self.stall_p and self.stalled < self.stall_budget and self.ch.bool("stall", self.stall_p):
            d = self.ch.range("stall", 20, max(21, self.stall_max // US)) * US
            self.stalled += d
            self.fault("thread_stall", me.tid, d // US)
            self.block(self.now + d, "stall")
            return
        if site is not None:
            self.sched_hash.update(b"%s:%d" % (site[0].encode(), site[1]))
        self._switch(me)
        if me.abort and me is self.main:
            me.abort = False
            raise SimAbort(self.aborted)

    def yp(self, weight=6):
        """yield point at a synchronisation operation or system call"""
        if self.depth:
            return
        if self.finished:
            raise SystemExit
        self.now += self.TICK
        self.yields += 1
        self.current.cpu = 0
        if self.yields > self.max_yields:
            if self.aborted is None:
                self._abort("steps")
                self._switch(self.current)
        timers = self.timers
        if timers and timers[0][0] <= self.now:
            self._fire_due()
            if self.current.state != RUNNABLE:  # killed by the event
                self._switch(None)
        if self.current.node.paused and self.current is not self.main:
            self._switch(self.current)
        self.quantum -= weight
        if self.quantum <= 0:
            self.preempt()
        me = self.current
        if me.abort and me is self.main:
            me.abort = False
            raise SimAbort(self.aborted)

    def unproductive(self):
        """a system call returned without moving anything: charge growing time so
        that a busy loop cannot stop the clock"""
        t = self.current
        t.spin += 1
        if t.spin > 200:
            self.now += min(self.TICK << min((t.spin - 200) // 20, 24), 200 * MS)

    def progress(self):
        self.current.spin = 0


def on_line(code, line):
    k = K
    if k is None or k.depth or k.finished:
        return
    k.lines += 1
    q = k.quantum - 1
    k.quantum = q
    if q <= 0:
        if k.lines > k.max_lines and k.aborted is None:
            k._abort("lines")
        k.preempt((code.co_name, line))
