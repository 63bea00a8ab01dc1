"""Driving the clients of the code under test against scripted servers."""
import asyncio
import concurrent.futures
import functools

from .common import *
from ..kernel import SimAbort

ERRORS = (Exception, asyncio.CancelledError)


class Call:
    """one call made through a client, and everything that came of it"""
    __slots__ = ("plan", "kind", "client", "iface", "timeout", "t0", "t1", "result", "exc", "fut", "settles",
                 "cbs", "settled_at", "started", "ctx", "thread", "info", "rid")

    def __init__(self, client, kind, plan, iface, timeout):
        self.client, self.kind, self.plan, self.iface, self.timeout = client, kind, plan, iface, timeout
        self.t0 = self.t1 = None
        self.result = self.exc = self.fut = None
        self.settles = 0
        self.cbs = []
        self.settled_at = None
        self.info = {}
        self.rid = None

    @property
    def id(self):
        return self.plan.id

    @property
    def ended(self):
        """the time at which the call ended for its caller, or None"""
        if self.kind in ("async", "cb") and self.exc is None:
            return self.settled_at
        return self.t1

    @property
    def content(self):
        """what a successful call returned"""
        if self.exc is not None:
            return None
        if self.kind in ("async", "cb"):
            if self.fut is None or not self.fut.done() or self.fut.cancelled() or self.fut.exception() is not None:
                return None
            r = self.fut.result()
            return getattr(r, "content", r)
        return self.result

    @property
    def error(self):
        """the exception a failed call ended with"""
        if self.exc is not None:
            return self.exc
        if self.fut is not None and self.fut.done():
            if self.fut.cancelled():
                return concurrent.futures.CancelledError()
            return self.fut.exception()
        return None

    def __repr__(self):
        return "%s call %s" % (self.kind, self.plan.id if self.plan else "-")


class Cli:
    """a client of the code under test on a node"""

    def __init__(self, env, name="cli", kind="aio", wrap=None, mesh=None, plans=None, app="test_app", node=None):
        self.env = env
        self.kind = kind
        self.node = node or env.node(name)
        if mesh is not None:
            env.sidecar(self.node, **mesh)
        self.image = env.image(self.node, wrap)
        self.plans = plans or Plans(env)
        self.calls = []
        mod = self.image["anthunder.client.aio_client"] if kind == "aio" else self.image["anthunder.client.client"]
        self.cls = mod.AioClient if kind == "aio" else mod.Client
        self.client = env.on(self.node, lambda: self.cls(app))
        self.Ctx = self.image["mytracer"].SpanContext

    def bind(self, iface, ip, port=PORT):
        self.image["anthunder"].SERVICE_MAP[iface] = (ip, port) if port != PORT or self.env.ch.bool("bind", 0.7) \
            else ip

    def ctx(self, **kw):
        return self.env.on(self.node, lambda: self.Ctx(None, **kw))

    def new(self, how, iface=IFACE, timeout=5000, plan=None, **kw):
        c = Call(self, how, plan or self.plans.new(iface=iface, **kw), iface, timeout)
        self.calls.append(c)
        return c

    def run(self, c, content=None, ctx=None, **headers):
        """make the call from the current thread"""
        env = self.env
        k = env.k
        if content is None:
            content = c.plan.body
        c.t0 = k.now
        c.thread = k.current.tid
        cl = self.client
        m = c.plan.method
        k.ev("call", c.kind, c.id)
        try:
            ctx = ctx or self.Ctx(None, **self.plans.marked(c.plan))
            if c.kind == "sync":
                c.result = cl.invoke_sync(c.iface, m, content, spanctx=ctx, timeout_ms=c.timeout, **headers)
            elif c.kind == "oneway":
                c.result = cl.invoke_oneway(c.iface, m, content, spanctx=ctx, **headers)
            else:
                def done(fut):
                    c.settles += 1
                    c.settled_at = k.now
                    k.ev("settled", c.id)

                def cb(*args):
                    c.cbs.append((k.now, args))
                    k.ev("callback", c.id)
                    if "cb_calls" in c.info:
                        self.run(c.info["cb_calls"])
                    if c.info.get("cb_raises"):
                        raise env.ch.pick("cbfail", [ValueError, SystemExit, Abandon], [6, 1, 1])("callback failure")
                c.fut = cl.invoke_async(c.iface, m, content, spanctx=ctx,
                                        callback=callback_of(cb, c.id) if c.kind == "cb" else None,
                                        timeout_ms=c.timeout, **headers)
                c.fut.add_done_callback(done)
        except ERRORS as e:
            c.exc = e
        c.t1 = k.now
        k.ev("called", c.id, type(c.exc).__name__ if c.exc else "-")
        return c

    def go(self, calls, gaps=None, **kw):
        """make these calls one after the other on a new thread; returns the job"""
        env = self.env

        def worker():
            for i, c in enumerate(calls):
                if gaps and gaps[i]:
                    env.sleep(gaps[i])
                self.run(c, **kw)
        return env.go(worker, node=self.node, name="caller")

    def conns(self, ip=None):
        """open client-side sockets of this node (to one address)"""
        return [e for e in self.env.net.open_ends(self.node)
                if e.role == "client" and (ip is None or e.raddr[0] == ip)]

    def all_settled(self, calls=None):
        return all(c.ended is not None for c in (calls or self.calls))


class Caller:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *args):
        return self.fn(*args)

    def method(self, *args):
        return self.fn(*args)


def callback_of(fn, n):
    """callables come in many forms"""
    return [fn, fn, Caller(fn), Caller(fn).method, functools.partial(fn), lambda *a: fn(*a)][n % 6]


def reply_frame(env, rid, content):
    """a successful reply; servers of other makes may add headers or name another codec"""
    ch = env.ch
    if ch.bool("rhdr", 0.06):
        return bolt.response(rid, content, headers=ch.pick("rhdr", [[("a", "b")], [("x.y", ""), ("\u4e2d", "z" * 300)]]),
                             codec=ch.pick("rhdr", [11, 1, 2]))
    return bolt.response(rid, content)


class Peer:
    """a scripted server; decide(peer, conn, frame, plan) -> list of (delay_ms, action, argument)"""

    def __init__(self, env, name, plans, decide, port=PORT, backlog=100, node=None):
        self.env = env
        self.k = env.k
        self.plans = plans
        self.decide = decide
        self.node = node or env.node(name)
        self.srv = ActorServer(env.k, self.node, port, on_frame=self._frame, backlog=backlog)
        self.port = port
        self.calm = False       # no more stalls
        self.got = []           # (conn, frame, plan)
        self.sent = {}          # plan id -> [Sent]
        self.accepted = self.srv.conns

    @property
    def ip(self):
        return self.node.ip

    def _frame(self, conn, f):
        if f.cmd == bolt.HEARTBEAT:
            p = None
        else:
            p = self.plans.by_body(f.content)
            if p is None and self.plans.twins:
                p = self.plans.by_mark({"call": f.headers().get("rpc_trace_context.call")})
            if p is not None and f.content != p.body:
                self.env.k.deferred = Violation(self.env.prop + ":request-body", "request %d arrived with a wrong body" % p.id)
        self.got.append((conn, f, p))
        for delay, act, arg in self.decide(self, conn, f, p):
            self.env.k.after(int(delay * MS), self._act, conn, f, p, act, arg)

    def requests(self, call):
        return [(c, f) for c, f, p in self.got if p is call.plan]

    def push(self, conn, data, p=None, status=None, content=None, ok=False):
        """queue bytes to the client, remembering where in the stream they end"""
        conn.data["off"] = conn.data.get("off", 0) + len(data)
        s = Sent()
        s.conn, s.off, s.status, s.content, s.ok, s.t = conn, conn.data["off"], status, content, ok, self.k.now
        if p is not None:
            self.sent.setdefault(p.id, []).append(s)
        conn.send(data)
        return s

    def _act(self, conn, f, p, act, arg):
        e = conn.end
        if e.state != "open" or conn.data.get("cut"):
            return
        if act == "ok":
            content = p.result if arg is None else arg
            self.push(conn, reply_frame(self.env, f.rid, content), p, 0, content, True)
        elif act == "status":
            self.push(conn, bolt.response(f.rid, b"", status=arg), p, arg)
        elif act == "hb":
            self.push(conn, bolt.heartbeat_ack(f.rid, arg or 0))
        elif act == "raw":
            self.push(conn, arg, p, None)
        elif act == "rawfail":
            self.push(conn, arg, p, "bad")
        elif act == "cut":       # a prefix of the successful reply, then the end
            n, how = arg
            data = bolt.response(f.rid, p.result)
            n = min(n, len(data) - 1)
            if n:
                self.push(conn, data[:n])
            conn.data["cut"] = True     # nothing may complete this frame
            self.k.fault("reply_cut_" + how)
            conn.finish(how) if how != "rst" else conn.finish("rst")
        elif act == "close":
            self.k.fault("peer_close")
            conn.finish("close")
        elif act == "shut":
            self.k.fault("peer_shut")
            conn.finish("shut")
        elif act == "rst":
            self.k.fault("peer_rst")
            conn.reset()
        elif act == "netreset":
            self.k.fault("net_reset")
            if e.conn is not None:
                self.env.net.reset(e.conn)
                conn.close()
        elif act == "stop":
            if self.calm:
                return
            self.k.fault("peer_stops_reading")
            conn.stop_reading()
        elif act == "call":
            arg(conn, f)
        else:
            raise HarnessError("action %r" % (act,))


class Sent:
    __slots__ = ("conn", "off", "status", "content", "ok", "t")

    def arrived(self):
        """when the last byte of it reached the client's host"""
        c = self.conn.end.conn
        return c.ba.got_at(self.off) if c is not None else None


def client_knows_end(conn):
    """when the client's host learned that the connection is over for reading"""
    c = conn.end.conn
    ts = [t for t in (c.ba.fin_got_t, c.ba.err_t) if t is not None]
    return min(ts) if ts else None
