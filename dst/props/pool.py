"""The connection pool (C17, C18) and the pool manager with its LRU container (C19)."""
import socket as _socket

from .common import *
from .. import image as _image
from ..actor import ActorServer

PPORT = 8080


def pool_setup(env, fine_p=0.6):
    setup(env, fine=True)
    if env.ch.bool("instr", fine_p):
        _image.monitor_instructions(("mysockpool",))
        env.feature(instr=True)


class Backend:
    """what the pool connects to: answers each 8-byte message with itself, or behaves as told"""

    def __init__(self, env, name="srv", port=PPORT):
        self.env = env
        self.node = env.node(name)
        self.srv = ActorServer(env.k, self.node, port, on_accept=self._accept)
        self.port = port
        self.conns = []

    def _accept(self, c):
        self.conns.append(c)
        c.parser = self
        c.data["got"] = bytearray()

    # stands in for the frame parser of the connection
    def feed(self, data):
        return []

    def live(self):
        return [c for c in self.conns if c.end.state == "open" and c.end.conn is not None
                and c.end.conn.a.state == "open"]

    def hurt(self, c, how):
        env = self.env
        env.k.fault("conn_" + how)
        if how == "close":
            c.close()
        elif how == "shut":
            c.finish("shut")
        elif how == "rst":
            c.reset()
        elif how == "netreset":
            if c.end.conn is not None:
                env.net.reset(c.end.conn)
        elif how == "stray":
            c.send(b"stray bytes")


HOWS = ["close", "rst", "netreset", "stray", "shut"]


def end_of(env, conn):
    """the simulated endpoint behind a pooled connection, None once it is closed"""
    try:
        fd = conn.fileno()
    except Exception:
        return None
    s = env.net.fds.get(fd)
    return None if s is None else s._end


def sockets(env, node):
    return [s for s in env.net.fds.values() if s._end is not None and s._end.node is node and s._end.state != "listen"]


def dirty(e):
    """why a connection must not be lent, or None"""
    if e.state == "connecting" or e.state == "init":
        return None
    if e.err:
        return "broken"
    if e.eof or e.state in ("dead", "closed"):
        return "closed by the peer"
    if e.rx:
        return "has unread bytes"
    return None


class PoolUser:
    """drives one pool from several threads and keeps the books"""

    def __init__(self, env, sig, **kw):
        self.env = env
        self.sig = sig
        self.cli = env.node("cli")
        self.image = env.image(self.cli)
        self.m = self.image["mysockpool"]
        self.exc = self.image["mysockpool.exceptions"]
        self.kw = kw
        self.key = self.m.SocketConnection.PoolKeyCls(env.node("srv").ip, PPORT)
        self.borrowed = {}
        self.lent = {}
        self.going_back = 0
        self.empties = 0
        self.gets = 0
        self.oserrors = 0
        self.refs = []
        self.watch = True
        env.net.on_socket = self._on_socket
        self.pool = env.on(self.cli, lambda: self.m.ConnectionPool(self.key, **kw))

    def _on_socket(self, s):
        if s._end.node is self.cli and self.watch:
            # (one which broke while it was idle may be replaced a moment before it is closed)
            n = sum(x._end in self.lent or not dirty(x._end) for x in sockets(self.env, self.cli))
            self.env.steps += 1
            if n > self.kw["max_connections"] and self.env.k.deferred is None:
                self.env.k.deferred = Violation(self.sig + ":too-many", "%d connections are open, at most %d are allowed"
                                                % (n, self.kw["max_connections"]))

    def counts(self):
        env = self.env
        n = self.pool.num_connections
        env.check(0 <= n <= self.kw["max_connections"], self.sig + ":count", "the pool counts %d connections, its maximum "
                  "is %d", n, self.kw["max_connections"])

    def get(self, timeout=None):
        """borrow; returns (connection, None) or (None, exception)"""
        env = self.env
        self.gets += 1
        snap = {}
        for s in sockets(env, self.cli):
            if s._end in self.lent:
                continue        # its borrower may still read what waits there
            d = dirty(s._end)
            if d:
                snap[id(s._end)] = (d, s._end)
        t = env.k.now
        try:
            c = self.pool.get_conn(timeout) if timeout is not None else self.pool.get_conn()
        except self.exc.EmptyPoolError as e:
            self.empties += 1
            return None, e
        except OSError as e:
            self.oserrors += 1
            return None, e
        except self.exc.ClosedPoolError as e:
            return None, e
        e = end_of(env, c)
        k = id(c)
        env.check(k not in self.borrowed, self.sig + ":shared", "a connection was lent although another borrower holds it")
        env.check(e is not None, self.sig + ":lent-closed", "a closed connection was lent")
        if id(e) in snap and snap[id(e)][1] is e:
            env.fail(self.sig + ":lent-dead", "a connection was lent which %s before it was asked for", snap[id(e)][0])
        self.borrowed[k] = c
        self.lent[e] = k
        self.counts()
        return c, None

    def put(self, c):
        self.borrowed.pop(id(c))
        for e in [e for e, k in self.lent.items() if k == id(c)]:
            del self.lent[e]
        self.going_back += 1
        try:
            self.pool.put_conn(c)
        finally:
            self.going_back -= 1
        self.counts()

    def idle(self):
        """idle connections; a blocking pool may also hold places for connections yet to be made"""
        q = self.pool.pool
        held = getattr(q, "queue", None)
        return q.qsize() if held is None else sum(1 for x in held if x is not None)

    def settle(self):
        """nobody works on the pool: the books must balance"""
        env = self.env
        n, i, b = self.pool.num_connections, self.idle(), len(self.borrowed)
        lost = n - i - b
        if self.kw["min_free_connections"] > 0 and 0 < lost <= self.empties:
            # recorded finding: exhausting the pool loses the idle connection which was taken out
            if "F-pool-exhausted" not in env.known:
                env.known.append("F-pool-exhausted")
        else:
            env.check(lost == 0, self.sig + ":books", "the pool counts %d connections, but %d are idle and %d borrowed "
                      "(borrowing failed %d times for want of capacity)", n, i, b, self.empties)
        k = len(sockets(env, self.cli))
        env.check(k <= n or not self.watch, self.sig + ":too-many", "%d connections are open, the pool counts %d", k, n)
        env.check(i <= self.kw["max_free_connections"], self.sig + ":idle", "%d connections are idle, at most %d may be", i,
                  self.kw["max_free_connections"])
        return lost


def chaos(env, user, back, horizon, creation=True, n=None):
    """faults on connections, and on their creation, while the threads work"""
    ch = env.ch
    for _ in range(n if n is not None else ch.pick("chaos", [0, 1, 3, 6])):
        at = ch.int("chaos", horizon) * MS
        what = ch.pick("chaos", HOWS + (["emfile", "down", "emfile"] if creation else []))
        if what == "emfile":
            def f():
                user.cli.emfile = ch.range("chaos", 1, 3)
            env.k.after(at, f)
        elif what == "down":
            if not ch.bool("chaos", 0.4):
                continue
            dur = ch.pick("chaos", [5, 50]) * MS

            def up():
                if not back.srv.up:
                    back.srv.listen()
            env.k.after(at, lambda: back.srv.up and back.srv.unlisten())
            env.k.after(at + dur, up)
        else:
            def f(what=what):
                l = back.live()
                if l:
                    back.hurt(l[ch.int("victim", len(l))], what)
            env.k.after(at, f)


def worker(env, user, nops, hold, broken):
    ch = env.ch

    def run():
        mine = []
        for _ in range(nops):
            op = ch.pick("op", ["get", "put", "get", "put", "spoil"] if mine else ["get"])
            if op == "get":
                c, e = user.get(ch.pick("timeout", [None, 0.05]) if user.kw.get("block") else None)
                if c is not None:
                    mine.append(c)
            elif op == "put":
                user.put(mine.pop(ch.int("op", len(mine))))
            elif broken:
                # the borrower found it unusable, closes it and gives it back
                env.k.fault("borrower_closes")
                c = mine.pop()
                c.close()
                user.put(c)
            g = ch.pick("gap", [0, 0, 1, 10])
            if g:
                env.sleep(g)
            if user.kw.get("block"):
                # nobody waits while holding what others wait for
                while mine:
                    user.put(mine.pop())
        while mine and not hold:
            user.put(mine.pop())
    return run


# ------------------------------------------------------------------------------------ C17
def c17_pool(env):
    pool_setup(env)
    ch = env.ch
    back = Backend(env)
    mx = ch.pick("cfg", [1, 2, 3, 5, 8])
    free = ch.range("cfg", 1, mx + 1)
    minf = ch.pick("cfg", [0, 0, 1, 2])
    initial = ch.range("cfg", 0, min(mx, free))
    user = PoolUser(env, "C17", max_connections=mx, max_free_connections=free, min_free_connections=minf,
                    initial_connections=initial)
    env.feature(max=mx, free=free, minfree=minf)
    rounds = ch.range("wl", 1, 3)
    for rnd in range(rounds):
        chaos(env, user, back, 40)
        jobs = [env.go(worker(env, user, ch.range("ops", 1, 8), ch.bool("hold", 0.3), True), node=user.cli, name="user")
                for _ in range(ch.range("wl", 1, 4))]
        ok = env.wait(jobs, 60000)
        env.check(ok, "C17:stuck", "borrowing or returning without waiting did not end")
        for j in jobs:
            env.check(j.exc is None, "C17:raised", "using the pool raised %r", j.exc)
        env.sleep(80)
        user.settle()
        if ch.bool("wl", 0.5):
            for c in list(user.borrowed.values()):
                env.on(user.cli, user.put, c)
            user.settle()
    # faults are over: everything comes back, and the whole capacity can be lent again
    user.cli.emfile = 0
    for c in list(user.borrowed.values()):
        env.on(user.cli, user.put, c)
    lost = user.settle()
    env.gc()
    n = 0
    while n <= mx + 1:
        c, e = env.on(user.cli, user.get)
        if c is None:
            break
        n += 1
    want = mx if minf == 0 else max(0, mx - lost - minf)
    env.check(isinstance(e, user.exc.EmptyPoolError), "C17:no-limit", "borrowing beyond the maximum of %d ended with %r",
              mx, e)
    env.check(n >= want, "C17:capacity", "all connections were back, but only %d of %d could be lent", n, want)
    env.check(n <= mx, "C17:too-many", "%d connections were lent at once, at most %d are allowed", n, mx)
    user.settle()
    for c in list(user.borrowed.values()):
        env.on(user.cli, user.put, c)
    user.settle()


def c17_scope(env):
    """connections lent by the manager for the length of a block of code, which may fail"""
    pool_setup(env)
    ch = env.ch
    back = Backend(env)
    cli = env.node("cli")
    image = env.image(cli)
    exc = image["mysockpool.exceptions"]
    mx = ch.pick("cfg", [1, 2, 3, 5])
    free = ch.range("cfg", 1, mx + 1)
    block = ch.bool("cfg", 0.3)
    man = env.on(cli, lambda: image["mysockpool"].PoolManager(
        ch.range("cfg", 1, 3), max_connections=mx, max_free_connections=mx if block else free, block=block,
        min_free_connections=0, initial_connections=mx if block else ch.range("cfg", 0, min(mx, free))))
    key = image["mysockpool"].SocketConnection.PoolKeyCls(env.node("srv").ip, PPORT)
    held = set()
    kinds = [ValueError, OSError, KeyError, NameError, AttributeError, SystemExit, GeneratorExit]

    def user(n):
        for _ in range(n):
            what = ch.pick("op", [None] + kinds, [6] + [1] * len(kinds))
            try:
                with man.connection_scope(key) as conn:
                    env.check(id(conn) not in held, "C17:shared", "a connection was lent although another borrower "
                              "holds it")
                    held.add(id(conn))
                    env.check(len(held) <= mx, "C17:too-many", "%d connections are lent, at most %d may be", len(held), mx)
                    try:
                        g = ch.pick("gap", [0, 0, 1, 10])
                        if g:
                            env.sleep(g)
                        if ch.bool("op", 0.1):
                            env.k.fault("borrower_closes")
                            conn.close()
                        if what is not None:
                            env.probe("scope_fails")
                            raise what("inside")
                    finally:
                        held.discard(id(conn))
            except exc.EmptyPoolError:
                env.probe("scope_refused")
            except (Exception, SystemExit, GeneratorExit) as e:
                env.check(what is not None and type(e) is what, "C17:raised", "using a connection raised %r", e)
    jobs = [env.go(user, ch.range("ops", 1, 6), node=cli, name="user") for _ in range(ch.range("wl", 1, 4))]
    env.check(env.wait(jobs, 60000), "C17:stuck", "borrowing or returning did not end")
    for j in jobs:
        env.check(j.exc is None, "C17:raised", "using the pool raised %r", j.exc)
    env.gc()
    pool = env.on(cli, man.connection_pool_from_pool_key, key)
    got = []
    for _ in range(mx):
        try:
            got.append(env.on(cli, lambda: pool.get_conn(0.1)))
        except exc.EmptyPoolError:
            break
    env.check(len(got) == mx, "C17:capacity", "all connections were back, but only %d of %d could be lent", len(got), mx)


def c17_block(env):
    """a blocking pool: borrowers wait for what others return"""
    pool_setup(env)
    ch = env.ch
    back = Backend(env)
    mx = ch.range("cfg", 1, 4)
    user = PoolUser(env, "C17", max_connections=mx, max_free_connections=mx, min_free_connections=0,
                    initial_connections=mx, block=True)
    waits = []

    def borrower():
        for _ in range(ch.range("ops", 1, 6)):
            to = ch.pick("timeout", [None, 0.03, 1])
            t = env.k.now
            c, e = user.get(to)
            waits.append((to, env.k.now - t, e))
            lim = None if to is None else to * SEC + 6 * env.net.max_latency + 100 * MS + env.eps
            env.check(to is None or env.k.now - t <= lim, "C17:waits-too-long", "a borrower which may wait %s s waited %.3f s "
                      "and got %r", to, (env.k.now - t) / 1e9, e or "a connection")
            if c is None and failing and isinstance(e, OSError):
                env.probe("could_not_be_replaced")
                env.sleep(ch.pick("gap", [0, 1, 10]))
                continue
            if c is None:
                env.check(isinstance(e, user.exc.EmptyPoolError), "C17:block-error", "waiting for a connection ended with "
                          "%r", e)
                env.check(to is not None and env.k.now - t >= to * SEC - MS, "C17:gave-up", "a borrower which may wait %s "
                          "s was refused after %.3f s", to, (env.k.now - t) / 1e9)
                continue
            env.sleep(ch.pick("gap", [0, 1, 10, 50]))
            if ch.bool("op", 0.15):
                env.k.fault("borrower_closes")
                c.close()
            user.put(c)
    failing = ch.bool("chaos", 0.5)
    chaos(env, user, back, 100, creation=failing)
    jobs = [env.go(borrower, node=user.cli, name="borrower") for _ in range(ch.range("wl", 1, 5))]
    ok = env.wait(jobs, 120000)
    env.check(ok, "C17:waits-forever", "a borrower still waits although all connections were returned")
    for j in jobs:
        env.check(j.exc is None, "C17:raised", "using the pool raised %r", j.exc)
    env.sleep(160)
    user.cli.emfile = 0
    user.settle()
    got = []
    for _ in range(mx):
        c, e = env.on(user.cli, user.get, 0.01)
        env.check(c is not None, "C17:capacity", "all connections were back, but only %d of %d could be lent: %r", len(got),
                  mx, e)
        got.append(c)
    last = []
    job = env.go(lambda: last.append(user.get(0.01)), node=user.cli, name="last")
    env.wait([job], 5000)
    env.check(last, "C17:waits-too-long", "a borrower which may wait 10 ms still waits after 5 s")
    c, e = last[0]
    env.check(c is None, "C17:too-many", "%d connections were lent at once", mx + 1)
    user.settle()


# ------------------------------------------------------------------------------------ C18
def c18_lend(env):
    """what is lent is alive and clean: every borrower can talk over it and hears only its own answer"""
    pool_setup(env, 0.3)
    ch = env.ch
    back = Backend(env)
    seq = [0]

    class Echo:
        def __init__(self, c):
            self.c = c
            self.buf = bytearray()

        def feed(self, data):
            self.buf += data
            while len(self.buf) >= 16:
                msg = bytes(self.buf[:16])
                del self.buf[:16]
                d = ch.pick("delay", [0, 0, 1, 30])
                act = msg[:1]
                if act == b"S":
                    continue            # never answered
                if d:
                    env.k.after(d * MS, self.c.send, msg)
                else:
                    self.c.send(msg)
            return []

    def accept(c):
        back.conns.append(c)
        c.parser = Echo(c)
    back.srv.on_accept = accept
    mx = ch.range("cfg", 1, 5)
    free = ch.range("cfg", 1, mx)
    minf = ch.pick("cfg", [0, 0, 1])
    if ch.bool("block", 0.25):
        # as many as may be open circulate between the threads, which wait for each other
        env.feature(block=True)
        user = PoolUser(env, "C18", max_connections=mx, max_free_connections=mx, min_free_connections=0,
                        initial_connections=mx, block=True)
        nthreads = ch.range("wl", 1, mx + 2)
    else:
        user = PoolUser(env, "C18", max_connections=mx, max_free_connections=free, min_free_connections=minf,
                        initial_connections=ch.range("cfg", 0, free))
        nthreads = ch.range("wl", 1, mx)
    hurting = [ch.bool("hurt", 0.5)]

    def talk(c, n):
        seq[0] += 1
        msg = b"M%015d" % seq[0]
        try:
            c.sendall(msg)
            got = c.recvexactly(16)
        except Exception as e:
            return e
        env.check(got == msg or hurting[0], "C18:foreign", "a borrower asked %r and was told %r", msg, got)
        return None

    def run():
        for _ in range(ch.range("ops", 1, 6)):
            c, e = user.get()
            if c is None:
                # threads never ask for more than the pool may lend (a spare connection counts too)
                env.check(minf or nthreads > mx and not user.kw.get("block"), "C18:refused", "no connection was lent although at most %d of %d are "
                          "borrowed: %r", nthreads, mx, e)
                env.sleep(1)
                continue
            use = ch.pick("op", ["talk", "abandon", "close", "idle"], [5, 2, 1, 1])
            if use == "talk":
                x = talk(c, 1)
                if x is not None:
                    env.check(hurting[0], "C18:unusable", "a connection was lent over which nothing could be exchanged: %r",
                              x)
                    c.close()
            elif use == "abandon":
                # asks, but does not wait for the answer: whoever gets the connection next must not hear it
                env.k.fault("reply_abandoned")
                seq[0] += 1
                try:
                    c.sendall(b"A%015d" % seq[0])
                    env.sleep(100)
                except Exception:
                    c.close()
            elif use == "close":
                env.k.fault("borrower_closes")
                c.close()
            user.put(c)
            g = ch.pick("gap", [0, 1, 10])
            if g:
                env.sleep(g)
    for rnd in range(ch.range("wl", 1, 4)):
        if hurting[0]:
            chaos(env, user, back, 60, creation=False)
        jobs = [env.go(run, node=user.cli, name="borrower") for _ in range(nthreads)]
        ok = env.wait(jobs, 120000)
        env.check(ok, "C18:stuck", "using connections of the pool did not end")
        for j in jobs:
            env.check(j.exc is None, "C18:raised", "using the pool raised %r", j.exc)
        env.sleep(100)
        # nobody works: idle connections are hurt, the next borrowers must not notice
        for c in back.live():
            if ch.bool("hurt", 0.5):
                back.hurt(c, ch.pick("hurt", HOWS))
        env.sleep(100)
        hurting[0] = False
        got = []
        for _ in range(min(nthreads, mx)):
            c, e = env.on(user.cli, user.get)
            if c is None and minf:
                break
            env.check(c is not None, "C18:refused", "no connection was lent although only %d of %d are borrowed: %r",
                      len(got), mx, e)
            j = env.go(talk, c, 2, node=user.cli, name="talker")
            env.check(env.wait(j, 20000), "C18:mute", "an exchange over a lent connection did not end")
            env.check(j.exc is None, "C18:raised", "%r", j.exc)
            env.check(j.result is None, "C18:unusable", "a connection was lent over which nothing could be exchanged: %r",
                      j.result)
            got.append(c)
        for c in got:
            env.on(user.cli, user.put, c)
        hurting[0] = ch.bool("hurt", 0.5)
        del got
        c = e = j = None
    del jobs
    env.gc()
    n = len(sockets(env, user.cli))
    env.check(n <= user.idle() + len(user.borrowed), "C18:not-discarded", "%d sockets are open, but only %d connections are "
              "idle", n, user.idle())


def c18_close(env):
    pool_setup(env)
    ch = env.ch
    back = Backend(env)
    mx = ch.range("cfg", 1, 6)
    free = ch.range("cfg", 1, mx)
    minf = ch.pick("cfg", [0, 1])
    user = PoolUser(env, "C18", max_connections=mx, max_free_connections=free, min_free_connections=minf,
                    initial_connections=ch.range("cfg", 0, free)) if not ch.bool("block", 0.3) else \
        PoolUser(env, "C18", max_connections=mx, max_free_connections=mx, min_free_connections=0,
                 initial_connections=mx, block=True)
    block = user.kw.get("block")
    closed = [None]
    held = []

    def run():
        mine = []
        for _ in range(ch.range("ops", 1, 8)):
            if mine and ch.bool("op", 0.5):
                c = mine.pop()
                before = closed[0] is not None
                s = end_of(env, c)
                user_put(c)
                if before:
                    env.check(s is None or s.state == "closed", "C18:not-closed", "a connection returned to the closed pool was left "
                              "open")
            else:
                before = closed[0] is not None
                c, e = get()
                if before:
                    env.check(isinstance(e, user.exc.ClosedPoolError), "C18:closed-lends", "the closed pool %s",
                              "lent a connection" if c is not None else "raised %r" % e)
                if c is not None:
                    mine.append(c)
            g = ch.pick("gap", [0, 0, 1, 5])
            if g:
                env.sleep(g)
        held.extend(mine)

    def get():
        try:
            return user.pool.get_conn(0.02 if block else None), None
        except (user.exc.EmptyPoolError, user.exc.ClosedPoolError) as e:
            return None, e
        except OSError as e:
            if not block:
                raise
            env.probe("could_not_be_replaced")
            return None, e

    def user_put(c):
        user.pool.put_conn(c)

    def close():
        env.sleep(ch.pick("gap", [0, 1, 3, 10]))
        if block and ch.bool("broken", 0.6):
            # some of its connections break and can not be made again
            for c in back.live():
                if ch.bool("broken", 0.5):
                    back.hurt(c, ch.pick("broken", HOWS))
            env.sleep(ch.pick("gap", [0, 1, 3]))
            user.cli.emfile = ch.range("broken", 1, 3)
            for _ in range(ch.range("broken", 1, 3)):
                c, e = get()
                if c is not None:
                    user_put(c)
            user.cli.emfile = 0
        if ch.bool("op", 0.5):
            user.pool.close()
        else:
            with user.pool:
                pass
        closed[0] = env.k.now
    chaos(env, user, back, 30, creation=block, n=ch.pick("chaos", [0, 4, 9, 15]) if block else None)
    jobs = [env.go(run, node=user.cli, name="user") for _ in range(ch.range("wl", 1, 3))]
    jobs.append(env.go(close, node=user.cli, name="closer"))
    ok = env.wait(jobs, 60000)
    env.check(ok, "C18:stuck", "using or closing the pool did not end")
    for j in jobs:
        env.check(j.exc is None, "C18:raised", "using the pool while it was closed raised %r", j.exc)
    if ch.bool("op", 0.5):
        j = env.go(user.pool.close, node=user.cli)
        env.wait(j, 10000)
        env.check(j.done and j.exc is None, "C18:close-twice", "closing a closed pool raised %r", j.exc)
    env.gc()
    n = len([s for s in sockets(env, user.cli)])
    env.check(n == len([c for c in held if end_of(env, c) is not None]), "C18:left-open", "the pool is closed and %d "
              "connections are borrowed, but %d sockets are open", len(held), n)
    for c in held:
        env.on(user.cli, user_put, c)
    del held[:]
    c = None
    n = len(sockets(env, user.cli))
    env.check(n == 0, "C18:not-closed", "%d connections returned to the closed pool were left open", n)
    c, e = env.on(user.cli, get)
    env.check(isinstance(e, user.exc.ClosedPoolError), "C18:closed-lends", "the closed pool %s",
              "lent a connection" if c is not None else "raised %r" % e)


def c18_read(env):
    """reading from and writing to pooled connections whose peers misbehave ends"""
    setup(env)
    ch = env.ch
    srv = env.node("srv")
    cli = env.node("cli")
    image = env.image(cli)
    SC = image["mysockpool"].SocketConnection
    wait = image["mysockpool"]

    class Sink:
        def feed(self, data):
            return []
    end_at = {}

    def accept(c):
        c.parser = Sink()
        mode = ch.pick("mode", ["full", "full", "cut", "none"])
        how = ch.pick("mode", ["close", "rst", "shut", "netreset"])
        total = want[0]
        n = total if mode == "full" else ch.int("cut", total) if mode == "cut" else 0
        data = payload[:n]
        step = max(1, n // ch.range("drip", 1, 10)) if n else 1
        t = ch.pick("delay", [0, 1, 20])
        gap = ch.pick("delay", [0, 1, 10])
        modes.append((mode, how))
        if ch.bool("mode", 0.2):
            env.k.fault("peer_stops_reading")
            c.stop_reading()
        for i in range(0, n, step):
            env.k.after(t * MS, c.send, data[i:i + step])
            t += gap
        if mode != "full":
            def go():
                env.k.fault("peer_" + how)
                if how == "netreset":
                    if c.end.conn is not None:
                        env.net.reset(c.end.conn)
                    c.close()
                elif how == "rst":
                    c.reset()
                elif how == "shut":
                    c.finish("shut")
                    env.k.after(300 * MS, c.close)
                else:
                    c.close()
                gone[0] = env.k.now
            env.k.after(t * MS + ch.pick("delay", [0, 5]) * MS, go)
    server = ActorServer(env.k, srv, PPORT, on_accept=accept)
    for rnd in range(ch.range("wl", 1, 3)):
        want = [ch.pick("size", [1, 16, 1000, min(50000, env.net.cap * 20)])]
        payload = pad(7, want[0])
        out = pad(9, ch.pick("size", [1, 1000, min(200000, env.net.cap * 30)]))
        modes, gone = [], [None]
        refused = ch.bool("mode", 0.1)
        if refused:
            server.unlisten()
        c = env.on(cli, lambda: SC(SC.PoolKeyCls(srv.ip, PPORT)))
        what = ch.pick("op", ["read", "read", "write", "wait"])

        def use():
            if what == "read":
                return c.recvexactly(want[0])
            if what == "write":
                c.sendall(out)
                return None
            r = wait.wait_for_read(c)
            return bool(r)
        j = env.go(use, node=cli, name=what)
        env.wait(j, 5000)
        mode = modes[0] if modes else ("refused", None)
        if refused:
            env.check(j.done, "C18:loops", "%s on a refused connection does not end", what)
            env.check(what == "wait" or j.exc is not None, "C18:refused-ok", "%s on a refused connection succeeded", what)
            server.listen()
        elif mode[0] == "full":
            if what == "read":
                env.check(j.done and j.exc is None and j.result == payload, "C18:read", "reading %d bytes which were sent "
                          "gave %r %s", want[0], j.exc, short(j.result) if j.result is not None else "")
            elif what == "wait":
                env.check(j.done and j.result is True, "C18:wait", "waiting for bytes which were sent did not end")
        else:
            env.until(lambda: gone[0] is not None, 5000)
            env.wait(j, 1000)
            env.check(j.done, "C18:loops", "%s on a connection whose peer is gone (%s) does not end", what, mode)
            if what == "read":
                env.check(j.exc is not None and not isinstance(j.exc, (SimAbort,)), "C18:short-read", "reading %d bytes "
                          "although the peer left before gave %s", want[0], short(j.result or b""))
                env.check(j.ended <= gone[0] + 400 * MS + env.eps, "C18:late", "reading went on %.1f ms after the peer had "
                          "gone", (j.ended - gone[0]) / 1e6)
        env.on(cli, c.close)
        if not j.done:
            break


# ------------------------------------------------------------------------------------ C19
class Op:
    __slots__ = ("kind", "key", "val", "res", "inv", "ret", "disposed", "tid")


def linearize(env, ops, init, step, limit=200000):
    """is there an order of these operations, consistent with real time, that the model allows? returns final states"""
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    finals = set()
    while stack:
        done, st = stack.pop()
        if done == full:
            finals.add(st)
            continue
        if (done, st) in seen:
            continue
        seen.add((done, st))
        if len(seen) > limit:
            raise HarnessError("history too long to judge")
        first = min(o.ret for i, o in enumerate(ops) if not done >> i & 1)
        for i, o in enumerate(ops):
            if done >> i & 1 or o.inv > first:
                continue
            for st2 in step(st, o):
                stack.append((done | 1 << i, st2))
    return finals


def lru_step(maxsize):
    def touch(st, k):
        it = [x for x in st if x[0] == k][0]
        return tuple(x for x in st if x[0] != k) + (it,)

    def step(st, o):
        keys = [x[0] for x in st]
        d = dict(st)
        if o.kind == "get":
            if o.key in d:
                return [touch(st, o.key)] if o.res == ("ok", d[o.key]) and not o.disposed else []
            return [st] if o.res == ("KeyError",) else []
        if o.kind == "set":
            if o.key in d:
                if o.disposed != ([d[o.key]] if d[o.key] != o.val else []):
                    return []
                new = tuple((k, o.val if k == o.key else v) for k, v in st)
                return [new, touch(new, o.key)]
            new = st + ((o.key, o.val),)
            if len(new) > maxsize:
                return [new[1:]] if o.disposed == [new[0][1]] else []
            return [new] if not o.disposed else []
        if o.kind == "del":
            if o.key in d:
                ok = o.res == ("ok", None) and o.disposed == [d[o.key]]
                return [tuple(x for x in st if x[0] != o.key)] if ok else []
            return [st] if o.res == ("KeyError",) and not o.disposed else []
        if o.kind == "len":
            return [st] if o.res == ("ok", len(st)) else []
        if o.kind == "keys":
            return [st] if o.res[0] == "ok" and sorted(o.res[1]) == sorted(keys) else []
        if o.kind == "clear":
            return [()] if sorted(o.disposed) == sorted(v for _, v in st) else []
        raise HarnessError(o.kind)
    return step


def c19_lru(env):
    setup(env, fine=True, net=False)
    if env.ch.bool("instr", 0.7):
        _image.monitor_instructions(("mysockpool.recently_used_container",))
        env.feature(instr=True)
    ch = env.ch
    k = env.k
    node = env.node("cli")
    image = env.image(node)
    maxsize = ch.range("cfg", 1, 3)
    disposed = []
    cur = {}
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    class Value:
        # (equal to others: what counts is which object it is)
        def __init__(self, n):
            self.n = n

        def __eq__(self, other):
            return isinstance(other, Value)

        def __hash__(self):
            return 1

        def __bool__(self):
            return self.n % 4 != 1
    vals = {}
    last = {}
    again = set()

    def dispose(v):
        disposed.append(v.n)
        o = cur.get(k.current.tid)
        if o is not None:
            o.disposed.append(v.n)
    c = image["mysockpool.recently_used_container"].RecentlyUsedContainer(maxsize, dispose_func=dispose)
    keys = ["a", "b", "c", "d", "e"][:maxsize + ch.range("cfg", 1, 2)]
    ops = []
    nval = [0]

    def run(todo):
        for kind, key, gap in todo:
            o = Op()
            o.kind, o.key, o.val, o.disposed, o.tid = kind, key, None, [], k.current.tid
            if kind == "set":
                nval[0] += 1
                o.val = nval[0]
            elif kind == "again":
                # the key's own value once more
                o.kind, o.val = "set", last.get(key)
                if o.val is None:
                    continue
                again.add(o.val)
            cur[k.current.tid] = o
            ops.append(o)
            o.inv = tick()
            o.ret = 1 << 60
            try:
                if kind == "get":
                    o.res = ("ok", c[key].n)
                elif o.kind == "set":
                    last[key] = o.val
                    c[key] = vals.setdefault(o.val, Value(o.val))
                    o.res = ("ok", None)
                elif kind == "del":
                    del c[key]
                    o.res = ("ok", None)
                elif kind == "len":
                    o.res = ("ok", len(c))
                    env.check(o.res[1] <= maxsize, "C19:size", "the container holds %d entries, its maximum is %d", o.res[1],
                              maxsize)
                elif kind == "keys":
                    o.res = ("ok", tuple(c.keys()))
                    env.check(len(o.res[1]) <= maxsize, "C19:size", "the container holds the keys %s, its maximum is %d",
                              o.res[1], maxsize)
                else:
                    c.clear()
                    o.res = ("ok", None)
            except KeyError:
                o.res = ("KeyError",)
            o.ret = tick()
            k.ev("op", kind, key, o.val, o.res[0])
            if gap:
                env.sleep(gap)
    jobs = []
    for _ in range(ch.range("wl", 1, 4)):
        todo = [(ch.pick("op", ["set", "get", "del", "len", "keys", "clear", "again"], [6, 5, 2, 1, 1, .4, .8]), ch.pick("key", keys),
                 ch.pick("gap", [0, 0, 0, 1])) for _ in range(ch.range("ops", 1, 5))]
        jobs.append(env.go(run, todo, node=node, name="user"))
    ok = env.wait(jobs, 60000)
    env.check(ok, "C19:stuck", "an operation on the container did not end")
    for j in jobs:
        env.check(j.exc is None, "C19:raised", "an operation on the container raised %r", j.exc)
    # read everything back, sequentially: that is part of the history
    run([("len", None, 0), ("keys", None, 0)])
    run([("get", x, 0) for x in keys])
    once = [v for v in disposed if v not in again]
    env.check(len(set(once)) == len(once), "C19:twice", "values were disposed of twice: %s", disposed)
    held = [o.res[1] for o in ops[-len(keys):] if o.res[0] == "ok"]
    for v in range(1, nval[0] + 1):
        if v in again:
            continue
        env.check((v in held) != (v in disposed), "C19:" + ("disposed-held" if v in held else "not-disposed"),
                  "value %d is %s", v, "disposed of although it is still held" if v in held
                  else "neither held nor was it disposed of")
    fin = linearize(env, ops, (), lru_step(maxsize))
    env.check(fin, "C19:not-linearizable", "no sequential order of a least-recently-used map (maximum %d) explains %s",
              maxsize, [(o.tid, o.kind, o.key, o.val, o.res, o.disposed, o.inv, o.ret) for o in ops])


def c19_manager(env):
    pool_setup(env, 0.5)
    ch = env.ch
    k = env.k
    back = [Backend(env, "srv%d" % i) for i in range(ch.range("cfg", 1, 4))]
    cli = env.node("cli")
    image = env.image(cli)
    m = image["mysockpool"]
    exc = image["mysockpool.exceptions"]
    maxp = ch.range("cfg", 1, 3)
    man = env.on(cli, lambda: m.PoolManager(maxp, initial_connections=ch.range("cfg", 0, 2), max_connections=4,
                                            max_free_connections=3, min_free_connections=0))
    Key = m.SocketConnection.PoolKeyCls
    clock = [0]
    ops = []
    pools = []

    def tick():
        clock[0] += 1
        return clock[0]

    def size():
        n = len(man.pools)
        env.check(n <= maxp, "C19:pools", "the manager keeps %d pools, at most %d are allowed", n, maxp)

    def op(kind, i, scope=False):
        o = Op()
        o.kind, o.key, o.tid = kind, i, k.current.tid
        o.inv = tick()
        o.ret = 1 << 60
        ops.append(o)
        if kind == "clear":
            man.clear()
            o.res = None
        else:
            p = man.connection_pool_from_pool_key(Key(back[i].node.ip, PPORT))
            if p not in pools:
                pools.append(p)
            o.res = pools.index(p)
        o.ret = tick()
        k.ev("op", kind, i, o.res)
        size()
        return o

    def run(todo):
        for kind, i, gap in todo:
            if kind == "scope":
                try:
                    with man.connection_scope(Key(back[i].node.ip, PPORT)) as conn:
                        env.check(end_of(env, conn) is not None, "C19:scope", "a closed connection was lent")
                        if gap:
                            env.sleep(gap)
                        if ch.bool("op", 0.3):
                            raise ValueError("inside")
                except ValueError:
                    pass
                except (exc.ClosedPoolError, exc.EmptyPoolError):
                    env.probe("scope_refused")
                size()
            else:
                op(kind, i)
            if gap:
                env.sleep(gap)
    scoped = ch.bool("wl", 0.4)
    kinds = ["get", "scope", "clear"] if scoped else ["get", "get", "get", "clear"]
    jobs = []
    for _ in range(ch.range("wl", 1, 4)):
        todo = [(ch.pick("op", kinds, [4, 4, .5] if scoped else None) if scoped or ch.bool("op", 0.9) else "get",
                 ch.int("key", len(back)), ch.pick("gap", [0, 0, 1])) for _ in range(ch.range("ops", 1, 4))]
        if not scoped:
            todo = [(kk if kk != "clear" or ch.bool("op", 0.2) else "get", i, g) for kk, i, g in todo]
        jobs.append(env.go(run, todo, node=cli, name="user"))
    ok = env.wait(jobs, 60000)
    env.check(ok, "C19:stuck", "an operation on the pool manager did not end")
    for j in jobs:
        env.check(j.exc is None, "C19:raised", "an operation on the pool manager raised %r", j.exc)
    env.gc()

    def live(p):
        try:
            c = p.get_conn()
        except exc.ClosedPoolError:
            return False
        except exc.EmptyPoolError:
            return True
        p.put_conn(c)
        return True
    if not scoped:
        def step(st, o):
            if o.kind == "clear":
                return [()]
            d = dict(st)
            if o.key in d:
                return [tuple(x for x in st if x[0] != o.key) + ((o.key, d[o.key]),)] if d[o.key] == o.res else []
            if o.res in born.get(id(o), ()):
                new = st + ((o.key, o.res),)
                return [new[1:] if len(new) > maxp else new]
            return []
        # a pool nobody saw before may have been made by any of the concurrent requests that returned it
        born = {id(o): {o.res} for o in ops if o.kind == "get"}
        fin = linearize(env, ops, (), step)
        hist = [(o.tid, o.kind, o.key, o.res, o.inv, o.ret) for o in ops]
        fin = {f for f in fin}
        env.check(fin, "C19:manager", "no sequential order of a manager of at most %d pools explains the pools it handed "
                  "out: %s", maxp, hist)
        # every pool was made once: by one request, in one place of the order
        alive = frozenset(i for i, p in enumerate(pools) if env.on(cli, live, p))
        env.check(any(frozenset(v for _, v in f) == alive for f in fin), "C19:pool-closed", "the pools %s are live, which "
                  "no order of these requests explains (at most %d): %s", sorted(alive), maxp, hist)
    else:
        for p in pools:
            env.on(cli, live, p)
        env.check(sum(1 for p in pools if env.on(cli, live, p)) <= maxp, "C19:pools-live", "more pools than %d are live",
                  maxp)
    env.on(cli, man.clear)
    env.gc()
    env.check(len(man.pools) == 0, "C19:clear", "a cleared manager keeps %d pools", len(man.pools))
    for p in pools:
        env.check(not env.on(cli, live, p), "C19:clear-live", "a pool of the cleared manager is still live")
    n = len(sockets(env, cli))
    env.check(n == 0, "C19:sockets", "all pools are closed and nothing is borrowed, but %d sockets are open", n)
