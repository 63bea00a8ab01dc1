"""The asyncio server under scripted clients (C10, C11, C12, C13, C24)."""
from .common import *


class Req:
    """one frame a scripted client sends, and what must come back"""
    __slots__ = ("rid", "data", "kind", "plan", "timeout", "conn", "end", "sent_off", "start_off")

    def __init__(self, rid, data, kind, plan=None, timeout=-1):
        self.rid, self.data, self.kind, self.plan, self.timeout = rid, data, kind, plan, timeout
        self.conn = None
        self.sent_off = None
        self.start_off = None


class RawClient:
    """a scripted client connection that sends a stream of frames in random pieces"""

    def __init__(self, env, node, ip, port=PORT, chunky=True, slow=True):
        self.env = env
        self.reqs = []
        self.off = 0
        self.c = connect(env.k, node, ip, port)
        self.chunky = chunky
        self.slow = chunky and slow and env.ch.bool("pause", 0.12)
        self.queue = bytearray()
        self.busy = False

    def add(self, req):
        req.conn = self
        req.start_off = self.off
        self.off += len(req.data)
        req.sent_off = self.off
        self.reqs.append(req)
        self.write(req.data)
        return req

    def write(self, data):
        self.queue += data
        self._pump()

    def _pump(self):
        if self.busy or not self.queue:
            return
        ch = self.env.ch
        n = len(self.queue)
        if self.chunky and n > 1 and ch.bool("chunk", 0.4):
            n -= ch.logint("chunk", n - 1)
            d = ch.pick("chunk", [0, 1, 30, 2000], [2, 3, 3, 1]) * MS // 10
            if self.slow and ch.bool("pause", 0.3):
                self.env.k.fault("slow_sender")
                d = ch.pick("pause", [1000, 4000, 12000, 65000, 400000], [1, 2, 2, 1, 1]) * MS
        else:
            d = 0
        piece = bytes(self.queue[:n])
        del self.queue[:n]
        self.c.send(piece)
        if self.queue:
            self.busy = True
            self.env.k.after(d, self._next)

    def _next(self):
        self.busy = False
        self._pump()

    def all_sent(self):
        c = self.c
        return not self.queue and not c.out or c.ended or c.end.state in ("closed", "dead") or bool(c.end.err)

    def arrival(self, req):
        """when the last byte of the frame reached the server's host"""
        conn = self.c.end.conn
        return conn.ab.got_at(req.sent_off) if conn is not None else None

    def replies(self):
        conn = self.c.end.conn
        if conn is None:
            return [], b""
        fr, rest = response_frames(conn)
        for f in fr:
            f.t = conn.ba.sent_at(f.end)
        return fr, rest

    def server_closed_at(self):
        conn = self.c.end.conn
        if conn is None:
            return None
        return conn.ba.fin_t if conn.ba.fin_t is not None else conn.ab.err_t


def trace_headers(env, i):
    r = env.ch.int("trace", 3)
    if r == 0:
        return {}
    if r == 1:
        return {"rpc_trace_context.sofaTraceId": "0a%dfeed" % i, "rpc_trace_context.sofaRpcId": "0.%d" % i}
    return {"rpc_trace_context.sofaRpcId": "1.2.%d" % i, "rpc_trace_context.user": "u%d" % i, "x.y": "z"}


def good_request(env, plans, rid, kinds=None, timeouts=True, oneway=True, max_delay=400):
    """a well-formed request frame of a random kind"""
    ch = env.ch
    kind = ch.pick("kind", ["ok", "empty", "big", "raise", "raise2", "none", "str", "nomethod", "noiface", "hb",
                            "oneway", "exit", "ctor"],
                   [8, 2, 1, 1, 1, 1, 1, 1, 1, 2, 1 if oneway else 0, 0.4, 0.5 if plans.moody else 0])
    if kind == "hb":
        return Req(rid, ping(env, rid), "hb")
    delay = ch.pick("delay", [0, 1, 20, 150, max_delay], [6, 3, 3, 2, 1])
    timeout = -1
    if timeouts:
        timeout = ch.pick("timeout", [-1, 0, 30000, 1000, 100, 25, 5], [6, 2, 3, 2, 1, 1, 1])
    iface = ch.pick("iface", [IFACE, IFACE2])
    method = ch.pick("method", METHODS)
    pk = kind if kind in ("raise", "raise2", "none", "str", "exit") else "ok"
    p = plans.new(delay=delay, kind=pk, iface=iface, method=method)
    if kind == "empty":
        p.result = b""
    elif kind == "big":
        p.result = pad(p.id, min(ch.pick("rsize", [70000, 20000, 200000]), env.net.cap * 12))
    else:
        p.result = lead(env) + b"R%d:" % p.id + pad(p.id + 7, ch.pick("rsize", [0, 5, 900]))
    if kind == "ctor":
        p.iface = iface = IFACE_MOODY
        p.method = method = ch.pick("method", ["echo", "nothing"])
    m = ch.pick("nomethod", ["nosuchmethod", "ech", "ECHO", "echo ", "echo3"]) if kind == "nomethod" else method
    s = iface
    if kind == "noiface":
        s = ch.pick("noiface", ["com.alipay.no.such:1.0", iface[:-4], iface[:-1] + "7", iface.lower(), iface + ".1", iface + " ", "\t" + iface])
    data = bolt.rpc(rid, s, m, p.body, timeout, bolt.ONEWAY if kind == "oneway" else bolt.REQUEST,
                    dict(trace_headers(env, p.id), **{"rpc_trace_context." + k: v for k, v in plans.marked(p).items()}),
                    ch.pick("codec", [11, 1, 2], [12, 1, 1]))
    return Req(rid, data, kind, p, timeout)


def ping(env, rid):
    """a heartbeat; mostly bare, now and then as senders do who fill in the other parts too"""
    ch = env.ch
    if not ch.bool("ping", 0.2):
        return bolt.heartbeat(rid)
    return bolt.request(rid, ch.pick("ping", [b"", b"", b"ping"]), ch.pick("ping", [b"", [("service", IFACE)]]),
                        ch.pick("ping", [b"", bolt.CLASS_REQ, b"com.alipay.remoting.Heartbeat"]), cmd=bolt.HEARTBEAT,
                        timeout=ch.pick("ping", [-1, 0, 3000]))


def judge(env, plans, cl, reqs, sigp, closed_ok=False, final=True, timing=False, skip=0):
    """every reply on this connection against what was asked on it"""
    frames, rest = cl.replies()
    frames = frames[skip:]
    by = {}
    for r in reqs:
        by[r.rid] = r
    seen = {}
    env.check(not rest, sigp + ":garbage", "server sent %d bytes that are no complete frame: %s",
              len(rest), short(rest))
    for f in frames:
        r = by.get(f.rid)
        env.check(r is not None, sigp + ":unsolicited", "reply with id %d which no request on this connection had: %r",
                  f.rid, f)
        env.check(f.rid not in seen, sigp + ":duplicate", "second reply to request %d (%s): %r", f.rid, r.kind, f)
        seen[f.rid] = f
        env.check(f.ptype == bolt.RESPONSE, sigp + ":ptype", "reply is not marked as a response: %r", f)
        if r.kind == "hb":
            env.check(f.cmd == bolt.HEARTBEAT and f.status == 0, sigp + ":heartbeat",
                      "heartbeat %d answered with %r", f.rid, f)
            continue
        env.check(r.kind != "oneway", sigp + ":oneway-reply", "one-way request %d was answered: %r", f.rid, f)
        env.check(f.cmd == bolt.CMD_RESPONSE, sigp + ":cmd", "reply to request %d has the wrong command code: %r",
                  f.rid, f)
        judge_status(env, plans, cl, r, f, sigp, timing)
    if not final:
        return seen
    closed = cl.server_closed_at()
    for r in reqs:
        if r.kind in ("oneway", "badoneway") or r.rid in seen:
            continue
        arr = cl.arrival(r)
        if arr is None and closed is None:
            continue
        if closed is not None:
            env.check(closed_ok, sigp + ":closed", "the server closed a connection whose peer had only sent "
                      "well-formed requests")
            continue
        env.fail(sigp + ":unanswered", "request %d (%s, timeout %d ms) was never answered", r.rid, r.kind, r.timeout)
    return seen


def judge_status(env, plans, cl, r, f, sigp, timing):
    p = r.plan
    arr = cl.arrival(r)
    env.check(arr is not None and f.t >= arr, sigp + ":early", "request %d was answered before it had arrived", r.rid)
    if r.kind in ("bad", "badoneway"):
        env.check(f.status != 0, sigp + ":bad-accepted", "bad frame %d was answered with success: %r", r.rid, f)
        return
    if r.kind in ("nomethod", "noiface"):
        env.check(f.status == bolt.NO_PROCESSOR, sigp + ":noproc", "request %d for an unknown %s got status %d",
                  r.rid, r.kind[2:], f.status)
        return
    ex = plans.of(p)
    if r.kind == "ctor":
        env.check(f.status != 0 and not ex, sigp + ":ctor", "request %d whose service object could not be made was answered "
                  "with success: %r", r.rid, f)
        return
    late = None
    if r.timeout > 0:
        late = arr + r.timeout * MS
        env.check(not timing or f.t <= late + env.eps, sigp + ":late-reply", "request %d with timeout %d ms was answered %.1f ms "
                  "after it arrived", r.rid, r.timeout, (f.t - arr) / 1e6)
    # a method which failed with a timeout of its own may be answered with this status, too
    raised = p.kind == "raise2" and ex and ex[0].t1 is not None and f.t >= ex[0].t1
    if f.status == bolt.TIMEOUT and not raised:
        env.check(late is not None, sigp + ":timeout-status", "request %d without timeout got a timeout status", r.rid)
        env.check(f.t >= late - env.eps, sigp + ":timeout-early", "request %d got a timeout status after %.1f ms, "
                  "its timeout was %d ms", r.rid, (f.t - arr) / 1e6, r.timeout)
        env.check(not (ex and ex[0].t1 is not None and ex[0].t1 < late - env.eps), sigp + ":timeout-though-done",
                  "request %d finished in time but got a timeout status", r.rid)
        return
    if late is not None and ex and ex[0].t1 is not None and ex[0].t1 > late + env.eps and f.status != bolt.TIMEOUT:
        env.fail(sigp + ":late-result", "request %d finished after its timeout but got status %d", r.rid, f.status)
    if p.kind == "ok":
        env.check(f.status == 0, sigp + ":status", "request %d was executed and returned, but got status %d",
                  r.rid, f.status)
        env.check(f.content == p.result, sigp + ":content", "request %d: reply content %s, the method returned %s",
                  r.rid, short(f.content), short(p.result))
    else:
        env.check(f.status != 0, sigp + ":fail-status", "request %d whose method failed (%s) got success with %s",
                  r.rid, p.kind, short(f.content))
    env.check(len(ex) <= 1, sigp + ":executions", "request %d was executed %d times", r.rid, len(ex))


def rids(env, n):
    """distinct request ids over the whole range"""
    base = env.ch.pick("rid", [1, 0, 1000, 0x7fffffff - n, 0x40000000, 0x80000000 - n // 2, 0xfffffffe - n],
                       [3, 2, 2, 2, 2, 1, 1])
    out = list(range(base, base + n))
    if env.ch.bool("rid", 0.3):
        out.reverse()
    return out


def start(env, **kw):
    setup(env, **kw)
    srv = Server(env)
    return srv, srv.plans


def settle(env, plans, clients, extra=1500):
    """wait until everything that can be answered must have been"""
    tmax = max([0] + [p.delay for p in plans.plans.values()])
    env.sleep(tmax)
    for c in clients:
        c.c.resume()
    sent = lambda: all(c.all_sent() for c in clients)
    env.until(sent, 5000, 20)
    if any(c.slow for c in clients):
        env.until(sent, 20000000, 1000)
    quiet = 0
    last = None
    for _ in range(3000):
        env.sleep(100)
        cur = (len(plans.execs), sum(e.t1 is not None for e in plans.execs), env.net.bytes)
        if cur == last:
            quiet += 1
            if quiet * 100 > extra + env.net.max_latency * 4 // MS:
                return
        else:
            quiet = 0
        last = cur


# ------------------------------------------------------------------------------------ C10
def c10_answers(env):
    srv, plans = start(env)
    ch = env.ch
    plans.twins = ch.bool("twins", 0.12)
    if ch.bool("moody", 0.5):
        moody(env, srv)
    srv.node.noname = ch.bool("noname", 0.1)
    nconn = ch.range("wl", 1, 3)
    per = ch.range("wl", 1, 9)
    clients = []
    hosts = ch.pick("hosts", [nconn, 1], [2, 1])
    for i in range(nconn):
        clients.append(RawClient(env, env.node("c%d" % (i % hosts)), srv.node.ip))
    ids = [rids(env, per) for _ in range(nconn)]
    same = ch.bool("wl", 0.5)
    for j in range(per):
        for i, cl in enumerate(clients):
            rid = ids[0 if same else i][j]
            cl.add(good_request(env, plans, rid))
        g = gap(env, [0, 1, 40], [3, 2, 1])
        if g:
            env.sleep(g)
    if ch.bool("slowreader", 0.25):
        env.k.fault("slow_reader")
        clients[0].c.stop_reading()
        env.sleep(ch.pick("slowreader", [50, 500]))
        clients[0].c.resume()
    settle(env, plans, clients)
    env.feature(conns=nconn, per=per)
    for cl in clients:
        env.check(cl.c.connected, "C10:connect", "the server did not accept a connection")
        judge(env, plans, cl, cl.reqs, "C10")
    if ch.bool("again", 0.3):
        # an id is free again once it was answered
        cl = ch.pick("again", clients)
        done = len(cl.replies()[0])
        new = [cl.add(good_request(env, plans, ch.pick("again", ids[clients.index(cl)]), oneway=False))]
        settle(env, plans, clients)
        judge(env, plans, cl, new, "C10", skip=done)
        env.check(len(cl.replies()[0]) >= done + 1, "C10:unanswered", "a request with an id that was used before on its "
                  "connection was never answered")
        env.probe("id_used_again")
    if ch.bool("leave", 0.35):
        # clients say that they have no more to ask, but still listen
        for cl in clients:
            done = len(cl.replies()[0])
            tail = bolt.rpc(999999, IFACE, "echo", b"x") if ch.bool("leave", 0.3) else b""
            if tail:
                cl.write(tail[:ch.range("leave", 1, len(tail) - 1)])
            cl.c.finish("shut")
            env.k.fault("peer_half_close")
            cl.told = done
        env.sleep(300 + 8 * env.net.max_latency / MS)
        for cl in clients:
            for f in cl.replies()[0][cl.told:]:
                env.check(f.rid == 999999 and f.status != 0, "C10:unsolicited", "every request was answered, but when its peer "
                          "closed its side the server sent another reply: %r", f)
    for e in plans.execs:
        env.check(e.id is not None and e.body == plans.plans[e.id].body, "C10:body",
                  "a method was run with a body nobody sent: %s", short(e.body))


# ------------------------------------------------------------------------------------ C11
BAD = ["neg", "trunc", "stray", "utf8", "class", "noclass", "cmd", "noservice", "nomethod", "empty_service",
       "trace", "trace2", "oddkeys", "odd"]


def bad_request(env, plans, rid):
    """a complete frame which no server can accept; its content is a well-formed request frame that
    must never be run"""
    ch = env.ch
    kind = ch.pick("bad", BAD)
    trap = plans.new(size=ch.pick("bad", [0, 40]), info={"trap": kind})
    inner = bolt.rpc(rid + 0 if rid < 5 else rid - 3, IFACE, "echo", trap.body)
    content = inner * ch.range("bad", 1, 3)
    own = plans.new(size=5, info={"trap": kind})
    if ch.bool("bad", 0.4):
        content = own.body + content
    oneway = ch.bool("bad", 0.15)
    pt = bolt.ONEWAY if oneway else bolt.REQUEST
    hdr = [("service", IFACE), ("sofa_head_target_service", IFACE), ("sofa_head_method_name", "echo")]
    cls, cmd = bolt.CLASS_REQ, bolt.CMD_REQUEST
    raw = None
    if kind == "neg":
        raw = bolt.header_map(hdr) + ch.pick("bad", [b"\xff\xff\xff\xf0abcd", b"\0\0\0\1k\xff\xff\xff\xfe",
                                                     b"\x80\0\0\0\0\0\0\0"])
    elif kind == "odd":
        raw = bolt.header_map(hdr) + ch.pick("bad", [b"\0\0\0\6lonely", b"\0\0\0\0", b"\xff\xff\xff\xff"])
    elif kind == "trunc":
        raw = bolt.header_map(hdr) + b"\x00\x00\x7f\x00ab"
    elif kind == "stray":
        raw = bolt.header_map(hdr) + b"\x00\x00"
    elif kind == "utf8":
        raw = bolt.header_map(hdr) + b"\x00\x00\x00\x02\xff\xfe" + b"\x00\x00\x00\x00"
    elif kind == "class":
        cls = ch.pick("bad", [b"com.alipay.sofa.rpc.core.response.SofaResponse", b"x", bolt.CLASS_REQ + b"2"])
    elif kind == "noclass":
        cls = b""
    elif kind == "cmd":
        cmd = ch.pick("badcmd", [bolt.CMD_RESPONSE, 3, 99, 0x7fff, -1])
    elif kind == "noservice":
        hdr = hdr[2:]
    elif kind == "nomethod":
        hdr = hdr[:2]
    elif kind == "empty_service":
        hdr = [("service", ""), ("sofa_head_target_service", ""), hdr[2]]
    elif kind == "trace":
        hdr = hdr + [("rpc_trace_context.sofaRpcId", ch.pick("bad", ["0.x", "", "1.", "abc"]))]
        content = own.body
    elif kind == "trace2":
        hdr = hdr + [("rpc_trace_context.sofaTraceId", "t"), ("rpc_trace_context.sofaRpcId", "..")]
        content = own.body
    elif kind == "oddkeys":
        hdr = [("sofa_head_method_name", "echo"), ("other", "x")]
    data = bolt.request(rid, content, raw if raw is not None else hdr, cls, pt, cmd)
    env.k.fault("bad_frame_" + kind)
    return Req(rid, data, "badoneway" if oneway else "bad", own)


def c11_bad_frames(env):
    srv, plans = start(env)
    ch = env.ch
    nconn = ch.range("wl", 1, 3)
    nodes = [env.node("c%d" % i) for i in range(ch.range("wl", 1, nconn))]
    clients = [RawClient(env, nodes[i % len(nodes)], srv.node.ip) for i in range(nconn)]
    many = ch.bool("many", 0.06)    # frame after frame is bad
    per = ch.range("wl", 15, 50) if many else ch.range("wl", 2, 7)
    dirty = set()
    for j in range(per):
        for i, cl in enumerate(clients):
            rid = 100 + j * 10
            if (i == 0 or ch.bool("wl", 0.15)) and ch.bool("wl", 0.8 if many else 0.45):
                cl.add(bad_request(env, plans, rid))
                dirty.add(cl)
            else:
                cl.add(good_request(env, plans, rid, max_delay=200))
        g = gap(env, [0, 1, 40], [4, 2, 1])
        if g:
            env.sleep(g)
    settle(env, plans, clients)
    judge_bad(env, plans, clients, dirty)
    # the server still serves: on the old connections that are open, and on new ones
    for i, cl in enumerate(clients):
        if cl.server_closed_at() is None:
            cl.add(good_request(env, plans, 5000 + i, max_delay=5))
    fresh = RawClient(env, ch.pick("late", nodes + [env.node("late")]), srv.node.ip)
    fresh.add(good_request(env, plans, 77))
    clients.append(fresh)
    settle(env, plans, clients)
    judge_bad(env, plans, clients, dirty)


def judge_bad(env, plans, clients, dirty):
    for cl in clients:
        env.check(cl.c.connected, "C11:connect", "the server did not accept a connection")
        ok = False
        closed = cl.server_closed_at()
        if cl in dirty and closed is not None:
            first = [cl.arrival(r) for r in cl.reqs if r.kind in ("bad", "badoneway")]
            ok = any(t is not None and t <= closed for t in first)
            env.probe("closed_by_bad_frame")
        judge(env, plans, cl, cl.reqs, "C11", closed_ok=ok)
    for e in plans.execs:
        p = plans.plans.get(e.id)
        env.check(p is not None, "C11:exec-garbage", "a method was run with a body nobody sent: %s", short(e.body))
        env.check(not (p.info and "trap" in p.info), "C11:exec-bad", "part of a bad frame (%s) was executed",
                  p.info and p.info.get("trap"))
        env.check(e.body == p.body, "C11:body", "a method was run with a wrong body: %s", short(e.body))


# ------------------------------------------------------------------------------------ C09
def c09_raw(env):
    """one-way requests of any client: with timeouts, failing, more than there are workers"""
    setup(env)
    ch = env.ch
    kind = ch.pick("cfg", ["aio", "aio", "sock"])
    srv = Server(env, kind=kind)
    plans = srv.plans
    if ch.bool("net", 0.5):
        fast_net(env)
    many = kind == "aio" and ch.bool("many", 0.4)
    n = ch.range("wl", 38, 70) if many else ch.range("wl", 1, 12)
    clients = []
    for j in range(n):
        if kind == "sock" or len(clients) < 2 and ch.bool("wl", 0.5) or not clients:
            clients.append(RawClient(env, env.node("c%d" % (j % 3)), srv.node.ip))
        cl = clients[-1] if kind == "sock" else ch.pick("cl", clients)
        ow = ch.bool("oneway", 0.75)
        p = plans.new(delay=ch.pick("delay", [0, 20, 300, 1500], [1, 1, 4, 4] if many else None), kind=ch.pick("kind", ["ok", "raise", "none", "str"], [6, 1, 1, 1]))
        p.result = b"R%d" % p.id if ch.bool("kind", 0.8) else b""
        timeout = ch.pick("timeout", [-1, 0, 1, 100, 500, 30000])
        cl.add(Req(j + 1, bolt.rpc(j + 1, IFACE, "echo", p.body, timeout, bolt.ONEWAY if ow else bolt.REQUEST),
                   "oneway" if ow else "ok", p, timeout))
        g = gap(env, [0, 1, 40], [6, 2, 1])
        if g:
            env.sleep(g)
    settle(env, plans, clients, extra=5000)
    for cl in clients:
        for r in cl.reqs:
            if r.kind != "oneway" or cl.arrival(r) is None:
                continue
            env.check(not [f for f in cl.replies()[0] if f.rid == r.rid], "C09:answered", "one-way request %d (timeout %d ms) "
                      "was answered: %r", r.rid, r.timeout, [f for f in cl.replies()[0] if f.rid == r.rid])
            ex = plans.of(r.plan)
            env.check(len(ex) == 1, "C09:executions", "one-way request %d with timeout %d ms was executed %d times although "
                      "nothing failed", r.rid, r.timeout, len(ex))
            env.check(ex[0].body == r.plan.body, "C09:body", "one-way request %d ran with a wrong payload", r.rid)


# ------------------------------------------------------------------------------------ C12
def fast_net(env):
    """a network quick and wide enough that transport delay never hides the server's own timing"""
    env.net.cap = 1 << 20
    env.net.base = env.ch.pick("net", [50, 500]) * US
    env.net.jitter = env.ch.pick("net", [0, 300]) * US
    env.net.short_read = env.ch.pick("net", [0.0, 0.3])
    env.net.short_write = env.ch.pick("net", [0.0, 0.3])


def c12_timeouts(env):
    setup(env, net=False)
    fast_net(env)
    srv = Server(env)
    plans = srv.plans
    ch = env.ch
    full = ch.bool("wl", 0.5)      # more requests than workers
    nconn = ch.range("wl", 1, 3)
    clients = [RawClient(env, env.node("c%d" % i), srv.node.ip, chunky=False) for i in range(nconn)]
    n = ch.range("wl", 35, 60) if full else ch.range("wl", 1, 12)
    for j in range(n):
        cl = clients[j % nconn]
        delay = ch.pick("delay", [0, 150, 400, 1000, 1250, 2500, 90000, 700000, 4000000],
                        [1, 4, 4, 2, .5, .3, 0.3, 0.05, 0.02] if full else [3, 3, 3, 2, 2, 1, 1, 0.2, 0.1])
        timeout = ch.pick("timeout", [-1, 0, -7, 200, 500, 700, 3000, 100000, 35000, 70000, 1001, 1650, 2900, 1, 65536, 0x7fffffff],
                          [2, 1, 1, 4, 4, 3, 2, .7, .4, .4, .4, 1, 1, .4, .3, .2])
        p = plans.new(size=ch.pick("size", [0, 100]), delay=delay,
                      kind=ch.pick("kind", ["ok", "raise", "none"], [8, 1, 1]))
        p.result = b"R%d" % p.id if ch.bool("kind", 0.85) else b""
        ow = ch.bool("oneway", 0.08)
        data = bolt.rpc(j + 1, IFACE, "echo", p.body, timeout, bolt.ONEWAY if ow else bolt.REQUEST)
        cl.add(Req(j + 1, data, "oneway" if ow else "ok", p, timeout))
        if not full or ch.bool("gap", 0.1):
            g = gap(env, [0, 1, 50, 300], [5, 2, 1, 1])
            if g:
                env.sleep(g)
    if full:
        env.probe("workers_exhausted")
    settle(env, plans, clients, extra=3000)
    for cl in clients:
        judge(env, plans, cl, cl.reqs, "C12", timing=True)
        for r in cl.reqs:
            ex = plans.of(r.plan)
            if r.kind == "ok" and r.timeout > 0:
                for e in ex:
                    env.check(e.t0 <= cl.arrival(r) + r.timeout * MS + env.eps, "C12:started-late",
                              "request %d was started %.1f ms after it arrived, its timeout was %d ms",
                              r.rid, (e.t0 - cl.arrival(r)) / 1e6, r.timeout)
                if not ex:
                    env.probe("cancelled_in_queue")
            else:
                env.check(len(ex) == 1, "C12:executions", "request %d without timeout was executed %d times",
                          r.rid, len(ex))


def c12_crowd(env):
    """hundreds of requests at once, most of which run out of time while they wait for a worker"""
    setup(env, net=False)
    fast_net(env)
    srv = Server(env)
    plans = srv.plans
    ch = env.ch
    nconn = ch.range("wl", 1, 2)
    clients = [RawClient(env, env.node("c%d" % i), srv.node.ip, chunky=False) for i in range(nconn)]
    n = ch.pick("wl", [70, 140, 300, 600], [3, 3, 2, 1])
    env.crowd = n * 800 * US    # they all want the processor
    hold = ch.pick("delay", [400, 1000, 3000])
    for j in range(n):
        p = plans.new(size=10, delay=hold if j < 35 or ch.bool("delay", 0.3) else ch.pick("delay", [0, 50]))
        p.result = b"R%d" % p.id
        timeout = ch.pick("timeout", [200, 500, 700, 2000, 100000], [4, 4, 3, 2, 1])
        clients[j % nconn].add(Req(j + 1, bolt.rpc(j + 1, IFACE, "echo", p.body, timeout), "ok", p, timeout))
        if ch.bool("gap", 0.02):
            env.sleep(ch.pick("gap", [1, 50]))
    env.feature(requests=n, hold=hold)
    settle(env, plans, clients, extra=3000)
    for cl in clients:
        judge(env, plans, cl, cl.reqs, "C12", timing=True)
        for r in cl.reqs:
            for e in plans.of(r.plan):
                env.check(e.t0 <= cl.arrival(r) + r.timeout * MS + env.eps, "C12:started-late",
                          "request %d was started %.1f ms after it arrived, its timeout was %d ms",
                          r.rid, (e.t0 - cl.arrival(r)) / 1e6, r.timeout)


def c12_pressed(env):
    """peers that ask for more than they read: their timeouts run all the same"""
    setup(env, net=False)
    fast_net(env)
    env.net.cap = env.ch.pick("net", [4096, 16384, 65536])
    srv = Server(env)
    plans = srv.plans
    ch = env.ch
    clients = [RawClient(env, env.node("c%d" % i), srv.node.ip, chunky=False) for i in range(ch.range("wl", 1, 2))]
    rid = 0

    def ask(cl, rsize, delay, timeout):
        nonlocal rid
        rid += 1
        p = plans.new(size=10, delay=delay)
        p.result = b"R%d:" % p.id + pad(p.id, rsize)
        cl.add(Req(rid, bolt.rpc(rid, IFACE, "echo", p.body, timeout), "ok", p, timeout))
    cl = clients[0]
    cl.c.stop_reading()
    env.k.fault("peer_stops_reading")
    big = env.net.cap * 2 + ch.pick("rsize", [70000, 200000])
    for _ in range(ch.range("wl", 1, 3)):
        ask(cl, big, 0, -1)
    env.sleep(ch.pick("gap", [0, 5, 50]))
    for _ in range(ch.range("wl", 1, 10)):
        ask(ch.pick("cl", clients), ch.pick("rsize", [0, 100, 5000]), ch.pick("delay", [0, 150, 400, 1000, 3000]),
            ch.pick("timeout", [-1, 200, 500, 700, 2000]))
        env.sleep(ch.pick("gap", [0, 0, 1, 50]))
    env.sleep(ch.pick("pause", [50, 600, 4000, 30000]))
    cl.c.resume()
    settle(env, plans, clients, extra=3000)
    for x in clients:
        judge(env, plans, x, x.reqs, "C12", timing=x is not cl)
        for r in x.reqs:
            for e in plans.of(r.plan):
                env.check(r.timeout <= 0 or e.t0 <= x.arrival(r) + r.timeout * MS + env.eps, "C12:started-late",
                          "request %d was started %.1f ms after it arrived, its timeout was %d ms",
                          r.rid, (e.t0 - x.arrival(r)) / 1e6, r.timeout)


# ------------------------------------------------------------------------------------ C13
def misbehave(env, plans, node, ip, i):
    """one scripted peer that goes away at some byte; returns the client and when it will be gone"""
    ch = env.ch
    cl = RawClient(env, node, ip, chunky=ch.bool("peer", 0.5))
    nreq = ch.pick("peer", [0, 1, 3])
    for j in range(nreq):
        p = plans.new(delay=ch.pick("delay", [0, 30, 300], [3, 2, 1]))
        p.result = pad(p.id, ch.pick("rsize", [10, 1000, min(300000, env.net.cap * 6)]))
        cl.add(Req(j + 1, bolt.rpc(j + 1, IFACE, "echo", p.body), "ok", p))
    extra = ch.bool("peer", 0.6)
    if extra:
        p = plans.new(info={"partial": True})
        frame = ch.pick("peer", [bolt.rpc(99, IFACE, "echo", p.body), bolt.heartbeat(99),
                                 bolt.request(99, b"zz", b"\xff\xff\xff\xf0", timeout=5)])
        cut = ch.logint("cutat", len(frame) - 1)
        cl.write(frame[:len(frame) - 1 - cut])
    if ch.bool("peer", 0.3):
        env.k.fault("peer_stops_reading")
        cl.c.stop_reading()
    end = ch.pick("peer", ["close", "rst", "shut", "close", "netreset", "vanish"])
    delay = ch.pick("peer", [0, 1, 20, 200, 2000]) * MS
    env.k.fault("peer_" + end)

    def go():
        c = cl.c
        cl.queue.clear()
        if end == "close":
            if ch.bool("peer", 0.5):
                # closes once everything queued was taken by the network, but not later than this
                c.finish("close")
                env.k.after(1500 * MS, c.close)
            else:
                c.close()
        elif end == "rst":
            c.reset()
        elif end == "shut":
            c.finish("shut")
            env.k.after(ch.pick("peer", [1, 50, 1500]) * MS, c.close)
        elif end == "netreset":
            if c.end.conn is not None:
                env.net.reset(c.end.conn)
            c.close()
        elif end == "vanish":
            # nothing is said any more until the server tries to talk: then it learns by a reset
            c.end.state = "closed"
            if c.end.conn is not None:
                env.k.after(800 * MS, env.net._rst_to, c.end.conn.b)
    env.k.after(delay, go)
    return cl


def hogs(env, plans, ip):
    """peers which asked for large results and do not read them, until told to leave"""
    ch = env.ch
    out = []
    if ch.bool("hog", 0.2):
        for i in range(ch.range("hog", 1, 2)):
            env.k.fault("peer_hogs")
            cl = RawClient(env, env.node("hog%d" % i), ip, slow=False, chunky=False)
            cl.c.stop_reading()
            for j in range(ch.pick("hog", [ch.range("hog", 1, 4), 14, 40], [6, 1, 1])):
                p = plans.new(delay=ch.pick("delay", [0, 30]))
                p.result = pad(p.id, 400000)
                cl.add(Req(j + 1, bolt.rpc(j + 1, IFACE, "echo", p.body), "ok", p))
            out.append(cl)
    return out


def starve(env, srv, plans, clients, sigp):
    """the host has no more threads to give for a moment; requests of this moment may fail"""
    ch = env.ch
    if not ch.bool("nothreads", 0.12):
        return
    settle(env, plans, clients)
    srv.node.nothreads = ch.range("nothreads", 1, 3)
    cls = [RawClient(env, env.node("bad%d" % i), srv.node.ip, slow=False) for i in range(ch.range("nothreads", 1, 3))]
    for i, cl in enumerate(cls):
        cl.add(good_request(env, plans, 3 + i, timeouts=False, max_delay=5))
    env.until(lambda: all(cl.replies()[0] or cl.c.eof for cl in cls), 4000, 20)
    srv.node.nothreads = 0
    for cl in cls:
        got = cl.replies()[0]
        env.check(len(got) <= 1, sigp + ":starved", "a request was answered %d times when no thread could be started", len(got))
        cl.c.close()


def c13_peers(env):
    srv, plans = start(env)
    ch = env.ch
    env.sleep(20)
    base_tasks = len(env.tasks(srv.node))
    good = RawClient(env, env.node("good"), srv.node.ip)
    hog = hogs(env, plans, srv.node.ip)
    n = ch.range("wl", 1, 6)
    rid = 1000
    for i in range(n):
        misbehave(env, plans, env.node("bad%d" % (i % 3)), srv.node.ip, i)
        if ch.bool("emfile", 0.15):
            srv.node.emfile = ch.range("emfile", 1, 3)
        starve(env, srv, plans, [good], "C13")
        rid += 1
        good.add(good_request(env, plans, rid, timeouts=False, max_delay=50))
        g = gap(env, [0, 1, 30, 500], [3, 2, 1, 1])
        if g:
            env.sleep(g)
        if ch.bool("newgood", 0.3):
            cl = RawClient(env, env.node("good2"), srv.node.ip, slow=False)
            cl.add(good_request(env, plans, 7, timeouts=False, oneway=False, max_delay=5))
            ok = env.until(lambda: len(cl.replies()[0]) >= 1, 30000, 50)
            env.check(cl.c.connected, "C13:accept", "a new connection was not accepted while other peers misbehave")
            env.check(ok, "C13:serve", "a new connection was not served while other peers misbehave")
            judge(env, plans, cl, cl.reqs, "C13")
            cl.c.close()
    env.sleep(4000)
    settle(env, plans, [good])
    judge(env, plans, good, good.reqs, "C13")
    last = RawClient(env, env.node("good3"), srv.node.ip)
    last.add(good_request(env, plans, 8, timeouts=False, max_delay=5))
    settle(env, plans, [last])
    env.check(last.c.connected, "C13:accept-after", "no connection is accepted after peers misbehaved")
    judge(env, plans, last, last.reqs, "C13")
    last.c.close()
    good.c.close()
    for cl in hog:
        cl.c.close()
    env.sleep(3000)
    # (before any garbage collection, which an idle process never gets to)
    left = [e for e in env.net.open_ends(srv.node)]
    env.check(not left, "C13:sockets", "%d server-side sockets are still open although their peers are gone: %s",
              len(left), [(e.state, e.raddr) for e in left[:3]])
    env.gc()
    tasks = env.tasks(srv.node)
    env.check(len(tasks) <= base_tasks, "C13:tasks", "%d tasks are left on the server although all peers are gone: %s",
              len(tasks) - base_tasks, [t.get_coro().__name__ for t in tasks][:5])


def c13_crowd(env):
    """very many peers over time, most of which break off"""
    setup(env, fine=False, stalls=False)
    srv = Server(env)
    plans = srv.plans
    ch = env.ch
    good = RawClient(env, env.node("good"), srv.node.ip, slow=False)
    n = ch.range("wl", 60, 320)
    how = ch.pick("peer", ["close", "rst", "part", "partrst", "bad", "mixed", "stay"])
    stay = []
    if how == "stay" and ch.bool("peer", 0.1):
        n = 1100
    gapms = ch.pick("gap", [0, 1, 5])
    for i in range(n):
        cl = RawClient(env, env.node("bad%d" % (i % 3)), srv.node.ip, chunky=False)
        h = ch.pick("peer", ["close", "rst", "part", "partrst", "bad"]) if how == "mixed" else how
        env.k.fault("peer_" + h)
        if h.startswith("part") or h == "stay" and i % 2:
            cl.write(bolt.heartbeat(1)[:ch.range("cutat", 1, 17)])
        elif h == "bad":
            cl.write(bolt.request(99, b"zz", b"\xff\xff\xff\xf0", timeout=5))
        if h == "stay":
            stay.append(cl)
        else:
            env.k.after(ch.pick("gap", [1, 5, 30]) * MS, cl.c.reset if h in ("rst", "partrst") else cl.c.close)
        if gapms and ch.bool("gap", 0.5):
            env.sleep(gapms)
        if i % 20 == 0:
            good.add(good_request(env, plans, 1000 + i, timeouts=False, max_delay=5))
    settle(env, plans, [good])
    judge(env, plans, good, good.reqs, "C13")
    for i in range(2):
        cl = RawClient(env, env.node("good%d" % i), srv.node.ip, slow=False)
        cl.add(good_request(env, plans, 7, timeouts=False, oneway=False, max_delay=5))
        settle(env, plans, [cl])
        env.check(cl.c.connected, "C13:accept", "a new connection was not accepted after %d peers %s", n,
                  "connected and stalled" if stay else "broke off")
        judge(env, plans, cl, cl.reqs, "C13")
        cl.c.close()
    good.c.close()
    for cl in stay:
        cl.c.close()
    env.sleep(3000 + 4 * env.net.max_latency // MS)
    env.until(lambda: not env.net.open_ends(srv.node), 30000, 100)  # a thousand handlers take their CPU time
    left = env.net.open_ends(srv.node)
    env.check(not left, "C13:sockets", "%d server-side sockets are still open although their peers are gone: %s",
              len(left), [(e.state, e.raddr) for e in left[:3]])


def c13_shutdown(env):
    srv, plans = start(env)
    ch = env.ch
    probe = RawClient(env, env.node("probe"), srv.node.ip, slow=False)
    probe.add(Req(1, bolt.heartbeat(1), "hb"))
    if not env.until(lambda: probe.replies()[0], 20000, 1):
        env.fail("C13:serve", "a running server did not answer a heartbeat")
    if ch.bool("wl", 0.5):
        probe.c.close()
    old = [RawClient(env, env.node("c%d" % i), srv.node.ip) for i in range(ch.range("wl", 0, 2))]
    for cl in old:
        for j in range(ch.range("wl", 0, 3)):
            cl.add(good_request(env, plans, j + 1))
    g = gap(env, [0, 1, 20, 300])
    if g:
        env.sleep(g)
    nb = None
    if ch.bool("neighbour", 0.25):
        nb = neighbour(env, srv, ch.range("neighbour", 0, 4), ch.pick("delay", [0, 50, 2000]))
    racing = []
    if ch.bool("wl", 0.5):
        for i in range(3):
            racing.append(RawClient(env, env.node("r%d" % i), srv.node.ip))
    j = env.go(srv.lsn.shutdown, node=srv.node, name="shutdown")
    ok = env.wait(j, 30000)
    env.check(ok, "C13:shutdown-hangs", "shutdown of a running server did not return within 30 s")
    env.check(j.exc is None, "C13:shutdown-raises", "shutdown of a running server raised %r", j.exc)
    t = env.k.now
    new = []
    near = ch.bool("near", 0.4)     # so near that they may be there before the listener's own thread goes on
    for i in range(ch.range("wl", 1, 3)):
        node = env.node("n%d" % i)
        if near:
            for l in (env.net.link(node, srv.node), env.net.link(srv.node, node)):
                l.base, l.jitter = ch.pick("near", [0, 1000, 20000]), 0
        cl = RawClient(env, node, srv.node.ip, slow=not near)
        p = plans.new(info={"after": True})
        p.result = b"served"
        cl.add(Req(1, bolt.rpc(1, IFACE, "echo", p.body), "ok", p))
        new.append(cl)
        if ch.bool("gap", 0.5):
            env.sleep(ch.pick("gap", [1, 100, 2000]))
    env.sleep(3000)
    for cl in new:
        env.check(not cl.replies()[0], "C13:served-after-shutdown", "a connection made after shutdown was served")
        env.check(not plans.of(cl.reqs[0].plan), "C13:run-after-shutdown", "a request on a connection made after "
                  "shutdown was executed")
    if nb is not None:
        # the other listener goes on
        other, cl = nb
        cl.add(good_request(env, other.plans, 77, timeouts=False, oneway=False, max_delay=5))
        late = RawClient(env, env.node("nbl"), srv.node.ip, port=other.port)
        late.add(good_request(env, other.plans, 78, timeouts=False, oneway=False, max_delay=5))
        settle(env, other.plans, [cl, late])
        for x in (cl, late):
            env.check(x.c.connected, "C13:neighbour", "after the shutdown of one listener another one does not accept connections")
            judge(env, other.plans, x, x.reqs, "C13")


# ------------------------------------------------------------------------------------ C24 (server side)
def neighbour(env, srv, n, delay):
    """another listener in the same process, with n slow requests under way"""
    other = Server(env, node=srv.node, image=srv.image, port=srv.port + 1, plans=Plans(env))
    cl = RawClient(env, env.node("nbc"), srv.node.ip, port=srv.port + 1, chunky=False)
    for i in range(n):
        p = other.plans.new(size=10, delay=delay)
        p.result = b"R%d" % p.id
        cl.add(Req(i + 1, bolt.rpc(i + 1, IFACE, "echo", p.body), "ok", p))
    env.probe("another_listener")
    return other, cl


def c24_server(env):
    setup(env, net=False, stalls=False)
    fast_net(env)
    srv = Server(env)
    plans = srv.plans
    ch = env.ch
    if ch.bool("neighbour", 0.15):
        # another listener of this process is busy
        neighbour(env, srv, ch.pick("neighbour", [10, 40]), 60000)
    clients = [RawClient(env, env.node("c%d" % i), srv.node.ip, chunky=False) for i in range(ch.range("wl", 1, 4))]
    full = ch.bool("wl", 0.25)      # no worker is left: only heartbeats need none
    hogs(env, plans, srv.node.ip)
    n = ch.range("wl", 45, 90) if full else ch.range("wl", 4, 24)
    lead_in = 0
    if full:
        env.probe("workers_exhausted")
    elif ch.bool("lead_in", 0.15):
        # so many slow requests for one thing that hardly a worker is left
        n = ch.range("lead_in", 20, 28)
        lead_in = n - ch.range("lead_in", 1, 5)
        env.probe("crowded_service")
    crowded = ch.pick("lead_in", [IFACE, IFACE2]), ch.pick("lead_in", METHODS)
    plans.twins = ch.bool("twins", 0.12)
    rid = 0
    for j in range(n):
        cl = clients[ch.int("wl", len(clients))]
        rid += 1
        if j >= lead_in and ch.bool("hb", 0.2):
            cl.add(Req(rid, bolt.heartbeat(rid), "hb"))
        else:
            p = plans.new(size=ch.pick("size", [0, 100, 5000]),
                          kind=ch.pick("kind", ["ok", "raise", "none"], [8, 1, 1]),
                          delay=20000 if j < lead_in else ch.pick("delay", [0, 1, 100, 1000, 20000], [0, 0, 1, 2, 8] if full else [5, 2, 2, 2, 2]))
            p.result = b"R%d" % p.id if ch.bool("kind", 0.8) else b""
            how = ch.pick("form", ["ok", "oneway", "nomethod"], [8, 1, 1])
            timeout = ch.pick("timeout", [-1, 0, 100, 600, 1500, 5000, 100000], [4, 1, 1, 2, 2, 2, 2])
            iface, method = ch.pick("iface", [IFACE, IFACE2]), ch.pick("method", METHODS)
            if j < lead_in:
                iface, method = crowded
            cl.add(Req(rid, bolt.rpc(rid, iface,
                                     "nosuchmethod" if how == "nomethod" else method, p.body, timeout,
                                     bolt.ONEWAY if how == "oneway" else bolt.REQUEST,
                                     {"rpc_trace_context." + k: v for k, v in plans.marked(p).items()}), how, p, timeout))
        g = 0 if j < lead_in else gap(env, [0, 1, 60, 900], [9, 2, 1, 0.1] if full else [5, 2, 1, 1])
        if g:
            env.sleep(g)
    settle(env, plans, clients, extra=22000 if full else 1500)
    for cl in clients:
        seen = judge(env, plans, cl, cl.reqs, "C24")
        for r in cl.reqs:
            f = seen.get(r.rid)
            if f is None or full and r.kind != "hb":
                continue
            own = 0 if r.kind in ("hb", "nomethod") else r.plan.delay * MS
            if r.timeout > 0:
                own = min(own, r.timeout * MS)
            took = f.t - cl.arrival(r)
            env.check(took <= own + env.eps, "C24:server-delay", "%s %d took %.1f ms, its own running time is %d ms",
                      "heartbeat" if r.kind == "hb" else "request", r.rid, took / 1e6, own // MS)
