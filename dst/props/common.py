"""Shared building blocks of scenarios."""
import re

from .. import bolt
from ..actor import ActorServer, connect
from ..env import Violation
from ..kernel import HarnessError, SimAbort, MS, SEC, US, K

IFACE = "com.alipay.test.facade.Echo:1.0"
IFACE2 = "com.alipay.test.facade.Echo:2.0"
IFACE_MOODY = "com.alipay.test.facade.Moody:1.0"
LEADS = (b"", b"\0", b" ", b"\n", b"\xef\xbb\xbf")
MARK = re.compile(rb"[^#]{0,3}#(\d+)#")
METHODS = ("echo", "echo2", "Echo")
PORT = 12200


def setup(env, fine=False, small=True, stalls=True, policy=True, net=True):
    """swarm-style draw of the scheduler and network configuration"""
    if policy:
        env.feature(**env.k.random_policy(fine=fine, stalls=stalls))
    if net:
        env.feature(**env.net.randomize(small=small))


def gap(env, opts, weights=None, idle=0.04, long=(5000, 35000, 130000, 700000)):
    """how long (ms) a peer waits before its next move; now and then long enough for any idle timer"""
    if env.ch.bool("idle", idle):
        env.k.fault("long_idle")
        return env.ch.pick("idle", long)
    return env.ch.pick("gap", opts, weights)


class Plan:
    """what the service does with one call"""
    __slots__ = ("id", "delay", "kind", "result", "iface", "method", "body", "info")

    def __init__(self, id, delay=0, kind="ok", result=b"", iface=IFACE, method="echo", body=b"", info=None):
        self.id = id
        self.delay = delay      # ms
        self.kind = kind        # ok | raise | exit | none | str | other
        self.result = result
        self.iface = iface
        self.method = method
        self.body = body
        self.info = info


class Exec:
    __slots__ = ("id", "iface", "method", "body", "t0", "t1", "tag", "obj", "ctx", "node", "args", "seq")

    def __repr__(self):
        return "Exec(%s %s.%s)" % (self.id, self.iface, self.method)


class Plans:
    """the calls of a run, and the log of what services were asked to do"""

    def __init__(self, env):
        self.env = env
        self.plans = {}
        self.execs = []
        self.n = 0
        self.objs = []
        self.moody = False      # whether the interface with failing constructors is there
        self.twins = False      # all calls carry the same payload; they are told apart by their trace context

    def marked(self, p):
        """baggage which tells this call from its twins"""
        return {"call": "#%d#" % p.id} if p is not None and not MARK.match(p.body[:16]) else {}

    def new(self, size=None, **kw):
        env = self.env
        self.n += 1
        i = self.n
        if size is None:
            size = env.ch.pick("size", [0, 10, 300, 3000, 30000], [4, 6, 4, 2, 1])
        body = lead(env) + b"#%d#" % i + pad(i, size)
        if self.twins:
            body = env.ch.pick("lead", [b"twin", b""])
        p = Plan(i, body=body, **kw)
        self.plans[i] = p
        return p

    def by_body(self, body):
        m = MARK.match(bytes(body[:16])) if isinstance(body, (bytes, bytearray)) else None
        return self.plans.get(int(m.group(1))) if m else None

    def by_mark(self, baggage):
        m = re.fullmatch(r"#(\d+)#", str((baggage or {}).get("call")))
        return self.plans.get(int(m.group(1))) if m else None

    def of(self, p):
        return [e for e in self.execs if e.id == p.id]

    def run(self, svc, method, body, iface, tag, args):
        """called by the service methods"""
        env = self.env
        k = env.k
        e = Exec()
        e.t0, e.t1 = k.now, None
        e.iface, e.method, e.body, e.tag = iface, method, body, tag
        e.ctx = getattr(svc, "ctx", None)
        e.obj = svc
        e.node = k.current.node.name
        e.args = args
        p = self.by_body(body) or self.twins and self.by_mark(e.ctx.baggage) or None
        e.id = p.id if p else None
        e.seq = len(self.execs)
        self.execs.append(e)
        k.ev("exec", e.id, iface, method, len(body) if hasattr(body, "__len__") else -1)
        try:
            if p is None:
                k.yp()
                return b"?"
            if p.delay:
                k.sleep(int(p.delay * MS))
            else:
                k.yp()
            if p.info and callable(p.info.get("hook")):
                p.info["hook"](svc, e)
            if p.kind == "raise":
                raise ValueError("service failure %d" % p.id)
            if p.kind == "raise2":
                raise failure(env, p.id, k.current.node)
            if p.kind == "exit":
                raise SystemExit(3)
            if p.kind == "none":
                return None
            if p.kind == "str":
                return "text, not bytes"
            return p.result
        finally:
            e.t1 = k.now
            k.ev("execd", e.id)


class Abandon(BaseException):
    pass


def moody(env, srv):
    """register an interface whose service objects can not be made"""
    Base = srv.image["anthunder.listener.base_listener"].BaseService

    class Moody(Base):
        def __init__(self, ctx):
            kind = env.ch.bool("failure", 0.1) and SystemExit(1) or failure(env, 0, srv.node)
            env.k.fault("ctor_fails")
            raise kind

        def echo(self, body):
            return body
    srv.plans.moody = True
    srv.lsn.handler.register_interface(IFACE_MOODY, Moody)


def failure(env, i, node):
    """what a method may raise: a call of its own failed, timed out or was cancelled, or it is broken"""
    import asyncio
    import concurrent.futures as cf
    ex = env.images[node.name]["anthunder.exceptions"]
    msg = "service failure %d" % i
    kinds = [KeyError, TimeoutError, cf.CancelledError, asyncio.CancelledError, StopIteration, AttributeError,
             EOFError, ConnectionResetError, BrokenPipeError, OSError, ex.ServerError, ex.ClientError, ex.PyboltError,
             MemoryError, asyncio.InvalidStateError, GeneratorExit, Abandon]
    kind = env.ch.pick("failure", kinds, [5] + [1] * (len(kinds) - 1))
    env.k.ev("raise", kind.__name__, i)
    return kind(msg)


def lead(env):
    return env.ch.pick("lead", LEADS, [12, 1, 1, 1, 1])


FILL = {11: b"\0", 13: b"\xff", 15: b" ", 17: b"\r\n"}


def pad(seed, n):
    """n bytes, for most seeds different, with every byte value; now and then all the same"""
    if n <= 0:
        return b""
    unit = FILL.get(seed % 19) or bytes(((seed * 131 + i * 7) & 0xff) for i in range(min(n, 251)))
    return (unit * (n // len(unit) + 1))[:n]


def make_service(env, image, plans, iface, tag=None, methods=METHODS, base=None):
    """a service class of that image for one interface"""
    Base = base or image["anthunder.listener.base_listener"].BaseService

    class Service(Base):
        def __init__(self, ctx, *args, **kwargs):
            super().__init__(ctx)
            self.ctor = (args, tuple(sorted(kwargs.items())))
            env.k.yp()

    def mk(m):
        def method(self, body):
            return plans.run(self, m, body, iface, tag, self.ctor)
        method.__name__ = m
        return method
    for m in methods:
        setattr(Service, m, mk(m))
    return Service


class Server:
    """a real listener of the code under test on a node"""

    def __init__(self, env, name="srv", kind="aio", port=PORT, plans=None, ifaces=(IFACE, IFACE2), mesh=False,
                 node=None, image=None, register=True):
        self.env = env
        self.kind = kind
        self.port = port
        self.node = node or env.node(name)
        self.plans = plans or Plans(env)
        if mesh and self.node.http is None:
            env.sidecar(self.node)
        self.ifaces = ifaces
        self.image = image or env.image(self.node)
        self.start(register)

    def start(self, register=True):
        env = self.env
        if self.kind == "aio":
            cls = self.image["anthunder.listener.aio_listener"].AioListener
        else:
            cls = self.image["anthunder.listener.sock_listener"].SockListener
        self.lsn = env.on(self.node, lambda: cls(("0.0.0.0", self.port), "test_app"))
        if register:
            for i in self.ifaces:
                self.lsn.handler.register_interface(i, make_service(env, self.image, self.plans, i))
        env.on(self.node, self.lsn.run_threading)
        ok = env.until(lambda: (self.node.name, self.port) in env.net.listeners, 5000, 1)
        if not ok:
            raise HarnessError("listener did not start: %s" % [u[1] for u in env.k.uncaught])

    def crash(self, silent=False):
        self.env.net.crash_node(self.node, silent)

    def restart(self):
        env = self.env
        env.net.restart_node(self.node)
        self.image = env.reload(self.node)
        self.start()

    def call_shutdown(self):
        return self.env.on(self.node, self.lsn.shutdown)


def request_frames(conn):
    """the complete request frames a client sent on this connection"""
    return bolt.frames("req", conn.ab.rec)


def response_frames(conn):
    return bolt.frames("resp", conn.ba.rec)


def short(b):
    if not isinstance(b, (bytes, bytearray, memoryview)):
        return repr(b)[:60]
    b = bytes(b)
    return repr(b if len(b) <= 40 else b[:40] + b"...")
