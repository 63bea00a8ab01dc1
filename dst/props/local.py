"""Parts of one process used by many threads: tracing (C16), request ids (C21), the service map (C25)."""
import operator
from itertools import islice

from .client_common import *
from .aioclient import spread, wall_steps
from .pool import Op, linearize
from .. import image as _image


def fine_setup(env, prefixes, p=0.6, **kw):
    setup(env, fine=True, **kw)
    if env.ch.bool("instr", p):
        _image.monitor_instructions(prefixes)
        env.feature(instr=True)


# ------------------------------------------------------------------------------------ C16
class Sp:
    __slots__ = ("span", "kind", "of", "id", "trace", "bag", "root", "ctx")


def c16_spans(env):
    fine_setup(env, ("mytracer",), net=False)
    ch = env.ch
    node = env.node("app")
    image = env.image(node)
    mt = image["mytracer"]
    import opentracing
    wall_steps(env, node, 60)
    roots = []

    def note(span, kind, of, ctx=None):
        s = Sp()
        s.span, s.kind, s.of = span, kind, of
        c = ctx if ctx is not None else span.context
        s.ctx = c
        b = c.baggage
        s.id, s.trace = str(b["sofaRpcId"]), str(b["sofaTraceId"])
        s.bag = {k: v for k, v in b.items() if k not in ("sofaRpcId", "sofaTraceId")}
        s.root = of.root if of is not None else s
        return s

    def root():
        how = ch.pick("root", ["new", "ctx", "extract", "received"])
        if how == "new":
            return note(mt.new_span("root"), "root", None)
        if how == "ctx":
            c = mt.SpanContext(None, sofaRpcId=ch.pick("rid", ["1", "0", "0.1.3", "9.99"]), user="u%d" % len(roots))
            return note(None, "root", None, c)
        d = {"rpc_trace_context.sofaTraceId": "0a0000011234567890123100%d" % len(roots),
             "rpc_trace_context.sofaRpcId": ch.pick("rid", ["0", "0.1", "0.12.1", "3", "0.4294967297.1", ".".join("1" * 30)], [4, 4, 4, 4, 1, 1]),
             "rpc_trace_context.user": "u%d" % len(roots), "service": "x"}
        c = mt.tracer.extract(opentracing.Format.TEXT_MAP, d)
        return note(None, "root", None, c)
    for _ in range(ch.range("wl", 1, 3)):
        roots.append(env.on(node, root))
    pool = list(roots)
    made = []

    def derive(p, kind):
        tags = {"tags": 1} if ch.bool("tags", 0.2) else {}
        if kind == "child":
            if p.span is not None and ch.bool("api", 0.7):
                sp = mt.child_span_of(p.span, "op", **tags)
            elif ch.bool("api", 0.5):
                sp = mt.tracer.start_span("op", child_of=p.ctx)
            else:
                sp = mt.tracer.start_span("op", references=[opentracing.child_of(p.ctx)])
        else:
            sp = mt.follows_span_from(p.span, **tags)
        return note(sp, kind, p)

    def run(todo):
        for how, i, gap in todo:
            p = pool[i % len(pool)] if how != "hot" else roots[0]
            kind = "follow" if how == "follow" and p.kind != "root" and p.span is not None else "child"
            s = derive(p, kind)
            made.append(s)
            if len(pool) < 8:
                pool.append(s)
            if gap:
                env.sleep(gap)
    if ch.bool("many", 0.03):
        # a span of a long-lived job
        hot = ch.pick("many", pool)
        for _ in range(ch.pick("many", [150, 300, 1100])):
            made.append(env.on(node, derive, hot, "child"))
    if ch.bool("deep", 0.05):
        # a call chain through very many steps
        env.probe("deep_trace")
        p = ch.pick("deep", pool)
        for _ in range(ch.pick("deep", [9, 20, 40, 70])):
            p = env.on(node, derive, p, "child")
            made.append(p)
        pool.append(p)
        pool[:] = pool[-3:]
    jobs = []
    for _ in range(ch.range("wl", 1, 5)):
        todo = [(ch.pick("op", ["hot", "child", "follow"]), ch.int("span", 8), ch.pick("gap", [0, 0, 0, 1]))
                for _ in range(ch.range("ops", 1, 8))]
        jobs.append(env.go(run, todo, node=node, name="tracer"))
    ok = env.wait(jobs, 60000)
    env.check(ok, "C16:stuck", "starting a span did not end")
    for j in jobs:
        env.check(j.exc is None, "C16:raised", "starting a span raised %r", j.exc)
    seen = {}
    for s in made:
        key = (id(s.root), s.id)
        env.check(key not in seen, "C16:span-twice", "two spans of one trace got the rpc id %s: a %s of %s and a %s of %s",
                  s.id, s.kind, s.of.id, seen[key].kind if key in seen else "", seen[key].of.id if key in seen else "")
        seen[key] = s
        env.check(s.id != s.root.id, "C16:span-twice", "a %s got the rpc id %s of its root", s.kind, s.id)
        env.check(s.trace == s.root.trace, "C16:trace", "a %s of a span with the trace id %s got the trace id %s", s.kind,
                  s.root.trace, s.trace)
        env.check(s.bag == s.root.bag, "C16:baggage", "a %s of a span with the baggage %s got %s", s.kind, s.root.bag, s.bag)
        par, me = s.of.id.split("."), s.id.split(".")
        if s.kind == "follow":
            par = par[:-1]
        env.check(me[:-1] == par and me[-1].isdigit() and len(me) == len(par) + 1, "C16:segment", "a %s of %s got the "
                  "rpc id %s", s.kind, s.of.id, s.id)
    for s in roots + made:
        b = s.ctx.baggage
        env.check(str(b["sofaRpcId"]) == s.id and str(b["sofaTraceId"]) == s.trace, "C16:changed", "the ids of a span "
                  "changed from %s/%s to %s/%s", s.trace, s.id, b["sofaTraceId"], b["sofaRpcId"])
    env.feature(spans=len(made))


def c16_traces(env):
    fine_setup(env, ("mytracer",), net=False)
    ch = env.ch
    node = env.node("app")
    image = env.image(node)
    mt = image["mytracer"]
    freeze = ch.bool("clock", 0.3)
    wall_steps(env, node, 20)
    if ch.bool("noname", 0.15):
        # the resolver fails, for ever or for a while
        node.noname = True
        if ch.bool("noname", 0.5):
            env.k.after(ch.range("noname", 0, 3000) * 1000, setattr, node, "noname", False)
    out = []
    if freeze:
        env.k.fault("wall_clock_frozen")
    base = env.k.now

    def one(how):
        if freeze:
            node.wall_offset = base - env.k.now
        if how == "span":
            c = mt.new_span("x").context
        elif how == "ctx":
            c = mt.SpanContext()
        elif how == "extract":
            import opentracing
            c = mt.tracer.extract(opentracing.Format.TEXT_MAP, {"rpc_trace_context.sofaRpcId": "0.1"})
        else:
            out.append(str(mt.TraceId()))
            return
        out.append(str(c.baggage["sofaTraceId"]))
    n = 0
    if ch.bool("bulk", 0.06):
        # very many, so that the sequence in the ids wraps around
        n = ch.range("bulk", 7850, 7950)
        env.k.depth += 1
        prev = env.k.current.node
        env.k.current.node = node
        try:
            for _ in range(n):
                one("trace")
        finally:
            env.k.current.node = prev
            env.k.depth -= 1

    def run(todo):
        for how, gap in todo:
            one(how)
            if gap:
                env.sleep(gap)
    jobs = []
    for _ in range(ch.range("wl", 2, 5)):
        todo = [(ch.pick("op", ["span", "ctx", "trace", "extract"]), ch.pick("gap", [0, 0, 0, 1]))
                for _ in range(ch.range("ops", 1, 9))]
        jobs.append(env.go(run, todo, node=node, name="tracer"))
    ok = env.wait(jobs, 60000)
    env.check(ok, "C16:stuck", "generating a trace id did not end")
    for j in jobs:
        env.check(j.exc is None, "C16:raised", "generating a trace id raised %r", j.exc)
    seen = {}
    for i, t in enumerate(out):
        env.check(t not in seen, "C16:trace-twice", "the trace id %s was generated twice (as number %d and %d)", t,
                  seen.get(t, 0), i)
        seen[t] = i
    env.check(all(out), "C16:trace-empty", "an empty trace id was generated")
    env.feature(ids=len(out))


# ------------------------------------------------------------------------------------ C21
def c21_calls(env):
    """ids on the wire, across the wrap-around, of all clients of one process"""
    setup(env, fine=True)
    if env.ch.bool("instr", 0.3):
        _image.monitor_instructions(("anthunder.helpers", "anthunder.protocol", "anthunder.command"))
    ch = env.ch
    plans = Plans(env)
    node = env.node("cli")
    mesh = ch.bool("mesh", 0.3)
    beats = Peer(env, "cli", plans, lambda q, conn, f, p: [(0, "hb", 0)], port=12220, node=node) if mesh else None
    kinds = ch.pick("clients", [["aio"], ["sock"], ["aio", "sock"], ["aio", "aio", "sock"]])
    wrap = env.wrap_start(0.7, span=30)
    clis = [Cli(env, "cli", kind=k, plans=plans, node=node, wrap=wrap, mesh={} if mesh and i == 0 else None)
            for i, k in enumerate(kinds)]
    peer = Peer(env, "p0", plans, lambda q, conn, f, p: [(ch.pick("delay", [0, 0, 1, 30]), "ok", None)] if p else [])
    clis[0].bind(IFACE, peer.ip)
    if mesh and ch.bool("mesh", 0.5):
        env.sleep(40000)
    calls, jobs = [], []
    for cli in clis:
        mine = []
        for _ in range(ch.range("wl", 1, 14)):
            how = ch.pick("kind", ["sync", "oneway", "async", "cb"] if cli.kind == "aio" else ["sync", "sync", "oneway"])
            c = cli.new(how, IFACE, 60000, size=10)
            c.plan.result = b"R%d" % c.id
            mine.append(c)
        calls += mine
        jobs += spread(env, mine, ch.range("wl", 1, 4), (0, 0, 0, 1))
    ok = env.wait(jobs, 200000)
    env.check(ok, "C21:stuck", "a call did not end")
    env.until(lambda: all(c.kind == "oneway" or c.ended is not None for c in calls), 10000)
    env.sleep(500)
    seen = {}
    n = 0
    for x in env.net.conns:
        if x.a.node is not node:
            continue
        for f in request_frames(x)[0]:
            raw = bytes(x.ab.rec)[f.start:f.end]
            env.check(0 <= f.rid <= 0x7fffffff, "C21:range", "a request was sent with the id %#x", f.rid)
            # a client may send the same request again over another connection
            env.check(f.rid not in seen or seen[f.rid] == raw and f.cmd != bolt.HEARTBEAT, "C21:twice", "two requests were sent with the id %#x: %s and %s", f.rid,
                      short(seen.get(f.rid, b"")[-30:]), short(raw[-30:]))
            seen[f.rid] = raw
            n += 1
            if f.rid < 100:
                env.probe("after_wrap")
    for c in calls:
        if c.kind != "oneway":
            env.check(c.content == c.plan.result, "C21:failed", "%s of the %s client, whose request id is close to the "
                      "wrap-around, ended with %r", c, c.client.kind, c.error)
        else:
            env.check(c.exc is None and peer.requests(c), "C21:failed", "%s of the %s client was not sent: %r", c,
                      c.client.kind, c.exc)
    env.feature(sent=n)


def c21_draw(env):
    """many threads drawing ids at once"""
    fine_setup(env, ("anthunder.helpers", "anthunder.protocol", "anthunder.command"), 0.8, net=False)
    ch = env.ch
    node = env.node("cli")
    image = env.image(node, env.wrap_start(0.6, span=40))
    proto = image["anthunder.protocol"]
    hb = image["anthunder.command.heartbeat"].HeartbeatRequest
    header = env.on(node, lambda: proto.SofaHeader(service="x"))
    out = []

    def run(todo):
        for how in todo:
            if how == "req":
                r = proto.BoltRequest.new_request(header, b"x", timeout_ms=100)
            elif how == "oneway":
                r = proto.BoltRequest.new_request(header, b"x", ptype=proto.constants.PTYPE.ONEWAY, timeout_ms=-1)
            else:
                r = hb.new_request()
            data = r.to_stream()
            f, _ = bolt.frames("req", data)
            env.check(len(f) == 1 and f[0].rid == r.request_id, "C21:range", "a request with the id %r was encoded as %s",
                      r.request_id, short(data))
            out.append((k.current.tid, r.request_id))
    k = env.k
    jobs = [env.go(run, [ch.pick("op", ["req", "req", "oneway", "beat"]) for _ in range(ch.range("ops", 1, 25))], node=node,
                   name="drawer") for _ in range(ch.range("wl", 2, 6))]
    ok = env.wait(jobs, 60000)
    env.check(ok, "C21:stuck", "building a request did not end")
    for j in jobs:
        env.check(j.exc is None, "C21:raised", "building a request raised %r", j.exc)
    seen = set()
    for t, i in out:
        env.check(type(i) is int and 0 <= i <= 0x7fffffff, "C21:range", "a request got the id %r", i)
        env.check(i not in seen, "C21:twice", "two requests got the id %#x", i)
        seen.add(i)
    if ch.bool("many", 0.02):
        # a long-lived process: many more, one after the other
        ids = image["anthunder.helpers.request_id"].RequestId
        n = ch.pick("many", [70000, 300000, 1100000])
        draw = proto.BoltRequest.new_request
        mine = env.on(node, lambda: [next(ids) for _ in range(n)])
        rest = env.on(node, lambda: [draw(header, b"x", timeout_ms=100).request_id for _ in range(20)])
        env.check(len(set(mine)) == n and not seen.intersection(mine) and not set(mine + list(seen)).intersection(rest)
                  and 0 <= min(mine) and max(mine) <= 0x7fffffff, "C21:twice-in-many", "%d ids drawn one after the other "
                  "are not all different, or out of range", n)
        env.probe("drew_many")
    ids = image["anthunder.helpers.request_id"].RequestId
    if ch.bool("huge", 0.0015) and type(ids).__module__ in ("builtins", "itertools"):
        # as many as a busy process needs in a day; too slow where the sequence is no builtin
        one = env.on(node, next, ids)
        env.check(one not in islice(ids, 20000000), "C21:twice-in-many", "the id %#x was given out again within 20 million", one)
        env.probe("drew_20_million")
    env.feature(drawn=len(out))


# ------------------------------------------------------------------------------------ C25
# some of them easily confused
NAMES = [["com.a:1.0", "com.b:1.0"], ["com.a:1.0", "com.b:1.0", "com.c:1.0"], ["com.a", "com.a:1.0"], ["com.a:1.0", "com.a:2.0"],
         ["com.a:1.0", "com.A:1.0"], ["com.a:1.0", "com.a:1.0:x", "com.a:1.0 "], ["com.a.b:1.0", "com.a:1.0", "a.b:1.0"],
         ["com.a.Svc", "Svc"], ["b:1.0", "com.a.b:1.0", "com.a"]]


def map_step(st, o):
    """sequential write-once map; state: sorted tuple of (key, value)"""
    d = dict(st)
    has = o.key in d

    def put(k, v):
        n = dict(d)
        n[k] = v
        return tuple(sorted(n.items()))

    def drop(k):
        n = dict(d)
        del n[k]
        return tuple(sorted(n.items()))
    if o.kind == "set":
        if o.res == ("maybe",):
            return [st] if has else [st, put(o.key, o.val)]
        if has:
            return [st] if o.res == ("KeyError",) else []
        return [put(o.key, o.val)] if o.res == ("ok", None) else []
    if o.kind == "setdefault":
        if has:
            return [st] if o.res == ("ok", d[o.key]) else []
        return [put(o.key, o.val)] if o.res == ("ok", o.val) else []
    if o.kind == "pop":
        if has:
            return [drop(o.key)] if o.res == ("ok", d[o.key]) else []
        return [st] if o.res == ("KeyError",) else []
    if o.kind == "del":
        if has:
            return [drop(o.key)] if o.res == ("ok", None) else []
        return [st] if o.res == ("KeyError",) else []
    if o.kind == "get":
        return [st] if o.res == ("ok", d.get(o.key)) else []
    if o.kind == "in":
        return [st] if o.res == ("ok", has) else []
    raise HarnessError(o.kind)


def c25_map(env):
    fine_setup(env, ("anthunder.helpers",), 0.8, net=False)
    ch = env.ch
    k = env.k
    node = env.node("app")
    image = env.image(node)
    m = image["anthunder"].SERVICE_MAP
    if ch.bool("cfg", 0.3):
        m = env.on(node, image["anthunder"].ImmutableValueDict)
    keys = ch.pick("cfg", NAMES)[:ch.range("cfg", 1, 2)]
    ops = []
    clock = [0]
    nval = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def run(todo):
        for kind, key, gap in todo:
            o = Op()
            o.kind, o.key, o.tid = kind, key, k.current.tid
            nval[0] += 1
            o.val = ("10.1.%d.%d" % (nval[0] // 200, nval[0] % 200), 12200)
            if ch.bool("val", 0.06):
                o.val = ""
            ops.append(o)
            o.ret = 1 << 60
            o.inv = tick()
            try:
                if kind == "set":
                    m[key] = o.val
                    o.res = ("ok", None)
                elif kind == "update":
                    o.kind = "set"
                    form = ch.int("form", 3)
                    if form == 0:
                        m.update({key: o.val})
                    elif form == 1:
                        m.update([(key, o.val)])
                    else:
                        operator.ior(m, {key: o.val})
                    o.res = ("ok", None)
                elif kind == "many":
                    # several interfaces at once: all of them are bound, or some may be and an error tells
                    rest = [Op() for x in keys if x != key]
                    for q, x in zip(rest, [x for x in keys if x != key]):
                        q.kind, q.key, q.tid, q.val, q.inv, q.ret = "set", x, o.tid, o.val, o.inv, o.ret
                        ops.append(q)
                    o.kind = "set"
                    res = ("maybe",)
                    try:
                        m.update(dict.fromkeys([key] + [q.key for q in rest], o.val))
                        res = ("ok", None)
                    finally:
                        o.ret = tick()
                        for q in rest + [o]:
                            q.res, q.ret = res if rest or res[0] == "ok" else ("KeyError",), o.ret
                elif kind == "setdefault":
                    o.res = ("ok", m.setdefault(key, o.val))
                elif kind == "pop":
                    o.res = ("ok", m.pop(key))
                elif kind == "del":
                    del m[key]
                    o.res = ("ok", None)
                elif kind == "get":
                    o.res = ("ok", m.get(key))
                else:
                    o.res = ("ok", key in m)
            except KeyError:
                if kind != "many":
                    o.res = ("KeyError",)
            o.ret = tick()
            k.ev("op", kind, key, o.res[0])
            if gap:
                env.sleep(gap)
    removing = ch.bool("wl", 0.5)
    names = ["set", "get", "in", "update", "setdefault", "many", "pop", "del"]
    w = [8, 2, 1, 1, .7, .5, 2, 1] if removing else [8, 2, 1, 1, .7, .5, 0, 0]
    jobs = []
    for _ in range(ch.range("wl", 2, 4)):
        todo = [(ch.pick("op", names, w), ch.pick("key", keys), ch.pick("gap", [0, 0, 0, 1]))
                for _ in range(ch.range("ops", 1, 5))]
        jobs.append(env.go(run, todo, node=node, name="binder"))
    ok = env.wait(jobs, 60000)
    env.check(ok, "C25:stuck", "an operation on the service map did not end")
    for j in jobs:
        env.check(j.exc is None, "C25:raised", "an operation on the service map raised %r", j.exc)
    run([("get", x, 0) for x in keys])
    if not removing:
        for x in keys:
            n = [o for o in ops if o.key == x and o.kind == "set" and o.res == ("ok", None)]
            env.check(len(n) <= 1, "C25:bound-twice", "%d threads bound %s, the last one to %s", len(n), x,
                      ops[-1].res[1])
    for x in keys:
        mine = [o for o in ops if o.key == x]
        fin = linearize(env, mine, (), map_step)
        env.check(fin, "C25:replaced", "no order of binding each interface at most once explains %s",
                  [(o.tid, o.kind, o.val[:1] if o.kind.startswith("set") else None, o.res, o.inv, o.ret) for o in mine])


def c25_calls(env):
    """calls go where their interface is bound at that time, or to the sidecar"""
    setup(env, fine=True)
    ch = env.ch
    plans = Plans(env)
    node = env.node("cli")
    reply = lambda q, conn, f, p: [(0, "hb", 0)] if p is None else [(ch.pick("delay", [0, 1, 20]), "ok", None)]
    side = Peer(env, "cli", plans, reply, port=12220, node=node)
    peers = [Peer(env, "p%d" % i, plans, reply) for i in range(3)]
    other = Peer(env, "p0", plans, reply, port=14200, node=peers[0].node)
    local = Peer(env, "cli", plans, reply, port=ch.pick("local", [12200, 12221]), node=node)
    mesh = ch.bool("mesh", 0.6)
    clis = [Cli(env, "cli", kind=kd, plans=plans, node=node, mesh={} if mesh and i == 0 else None)
            for i, kd in enumerate(ch.pick("clients", [["aio"], ["sock"], ["aio", "sock"]]))]
    m = clis[0].image["anthunder"].SERVICE_MAP
    ifs = ch.pick("ifs", NAMES)
    binds = []     # (iface, peer or None, from, surely from, removal may begin, surely gone)
    k = env.k
    places = peers + [other, local]

    def bind(iface, p):
        ip = "127.0.0.1" if p is local else p.ip
        addr = (ip, p.port) if p.port != 12200 or ch.bool("bind", 0.5) else ip
        b = [iface, p, k.now, None, None, None]
        binds.append(b)
        try:
            m[iface] = addr
            b[3] = k.now
        except KeyError:
            binds.remove(b)

    def subscribe(iface):
        # (only this thread binds and removes this interface)
        cur = m.get(iface)
        b = [iface, side, k.now, None, None, None]
        binds.append(b)
        try:
            clis[0].client.subscribe(iface)
        except KeyError:
            env.check(cur is not None, "C25:subscribe-refused", "an interface which was not bound could not be subscribed")
            binds.remove(b)
            env.check(m.get(iface) == cur, "C25:subscribe-replaced", "%s was bound to %s, a refused subscription bound it "
                      "to %s", iface, cur, m.get(iface))
            return
        env.check(cur is None or m.get(iface) == cur, "C25:subscribe-replaced", "%s was bound to %s, a subscription bound "
                  "it to %s", iface, cur, m.get(iface))
        if cur is not None:
            binds.remove(b)
            return
        if m.get(iface) == ("127.0.0.1", 12220):
            b[3] = k.now
        else:
            binds.remove(b)

    def remove(iface):
        try:
            cur = [b for b in binds if b[0] == iface and b[3] is not None and b[5] is None]
            for b in cur:
                b[4] = k.now
            m.pop(iface)
            for b in cur:
                b[5] = k.now
        except KeyError:
            for b in cur:
                b[4] = None
    jobs, calls = [], []
    for i in ifs:
        def run(i=i, todo=None):
            for op, p, gap in todo:
                if op == "bind":
                    bind(i, p)
                elif op == "sub":
                    subscribe(i)
                else:
                    remove(i)
                if gap:
                    env.sleep(gap)
        ops = ["bind", "bind", "remove"] + (["sub"] if mesh else [])
        todo = [(ch.pick("op", ops), ch.pick("peer", places), ch.pick("gap", [0, 1, 30])) for _ in range(ch.range("wl", 1, 6))]
        jobs.append(env.go(run, i, todo, node=node, name="binder"))
    for cli in clis:
        mine = []
        for _ in range(ch.range("wl", 1, 8)):
            c = cli.new("sync", ch.pick("iface", ifs), 60000, size=10)
            c.plan.result = b"R%d" % c.id
            mine.append(c)
        calls += mine
        jobs += spread(env, mine, ch.range("wl", 1, 3), (0, 0, 1, 30))
    ok = env.wait(jobs, 200000)
    env.check(ok, "C25:stuck", "a call did not end")
    for j in jobs:
        env.check(j.exc is None, "C25:raised", "binding raised %r", j.exc)
    for c in calls:
        where = [p for p in places + [side] if p.requests(c)]
        env.check(c.content == c.plan.result and len(where) == 1, "C25:failed", "%s was received by %d servers and ended "
                  "with %r", c, len(where), c.error)
        mine = [b for b in binds if b[0] == c.iface]
        may = [b[1] for b in mine if b[2] <= c.t1 and (b[5] is None or b[5] >= c.t0)]
        # surely bound all the while?
        if not [b for b in mine if b[3] is not None and b[3] < c.t0 and (b[4] is None or b[4] > c.t1)]:
            may.append(side)
        env.check(where[0] in may, "C25:wrong-address", "%s to %s went to %s:%s, but the interface was bound to %s", c,
                  c.iface, where[0].node.name, where[0].port, [(p.node.name, p.port) for p in may])
        env.probe("to_sidecar" if where[0] is side else "to_bound")
