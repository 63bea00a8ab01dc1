"""The service mesh's sidecar (C20) and dispatch to registered services (C23)."""
from .client_common import *
from .aioclient import spread
from .. import image as _image

BAD = ["refused", "lost", "reject", "reject_nomsg", "truthy", "missing", "notjson", "list", "500", "404", "503", "201"]
APP = "configs/application"


class Moody:
    """a sidecar's answers: a mode, or a mix"""

    def __init__(self, env, p_bad=0.4):
        self.ch = env.ch
        self.bad = self.ch.pick("mood", [0, p_bad, 1.0, 0.15], [2, 4, 1, 2])

    def __call__(self, endpoint, payload):
        if self.ch.bool("mood", self.bad):
            return self.ch.pick("mood", BAD)
        return "ok"


def fine_setup(env, p=0.5):
    setup(env, fine=True)
    if env.ch.bool("instr", p):
        _image.monitor_instructions(("anthunder.mesh", "anthunder.listener.base_listener", "anthunder.client.base",
                                     "anthunder.helpers"))
        env.feature(instr=True)


# ------------------------------------------------------------------------------------ C20
def c20_startup(env):
    """many threads start one mesh client"""
    fine_setup(env, 0.7)
    ch = env.ch
    k = env.k
    node = env.node("app")
    mood = Moody(env)
    side = env.sidecar(node, plan=mood, latency_ms=ch.pick("lat", [1, 20]))
    image = env.image(node)
    mod = image["anthunder.mesh.mesh_client"]
    info = dict(appName="app%d" % ch.int("cfg", 3))
    if ch.bool("cfg", 0.5):
        info.update(zone="zone1", dataCenter="dc", antShareCloud=True, accessKey="key", secretKey="secret")
    mesh = env.on(node, lambda: mod.MeshClient(mod.ApplicationInfo(**info)))
    starts = []

    def start():
        r = [k.now, None, None, k.current.tid, len(side.log), None]
        starts.append(r)
        try:
            x = mesh.startup()
        except Exception as e:
            r[1] = e
        else:
            env.check(x, "C20:start-false", "starting the mesh client returned %r", x)
        r[2] = k.now
        r[5] = len(side.log)

    def run(todo):
        for gap in todo:
            start()
            if gap:
                env.sleep(gap)

    def others(todo):
        # requests about interfaces are reported exactly as they were answered
        for op, gap in todo:
            n = len([e for e in side.log if e[5] == k.current.tid])
            name = "com.x%d:1.0" % k.current.tid
            exc = None
            try:
                if op == "publish":
                    mesh.publish(mod.PublishServiceRequest(serviceName=name, port="1", providerMetaInfo=mod.ProviderMetaInfo(
                        protocol="1", version="4.0", serializeType="protobuf", appName="a")))
                else:
                    getattr(mesh, op)(name)
            except Exception as e:
                exc = e
            mine = [e for e in side.log if e[5] == k.current.tid][n:]
            env.check(len(mine) == 1 and mine[0][1] == "services/" + op and mine[0][2]["serviceName"] == name, "C20:request",
                      "%s of %s sent %s", op, name, [(e[1], e[2]) for e in mine])
            env.check((exc is None) == (mine[0][3] == "ok"), "C20:" + ("false-success" if exc is None else "false-error"),
                      "%s was answered with %r by the sidecar, but %s", op, mine[0][3],
                      "succeeded" if exc is None else "raised %r" % exc)
            if gap:
                env.sleep(gap)
    jobs = [env.go(run, [ch.pick("gap", [0, 0, 1, 30]) for _ in range(ch.range("ops", 1, 4))], node=node, name="starter")
            for _ in range(ch.range("wl", 1, 5))]
    for _ in range(ch.int("wl", 3)):
        jobs.append(env.go(others, [(ch.pick("op", ["subscribe", "unsubscribe", "publish", "unpublish"]),
                                     ch.pick("gap", [0, 1, 30])) for _ in range(ch.range("ops", 1, 4))], node=node,
                           name="other"))
    ok = env.wait(jobs, 60000)
    env.check(ok, "C20:stuck", "starting the mesh client did not end")
    for j in jobs:
        env.check(j.exc is None, "C20:raised", "%r", j.exc)
    if ch.bool("wl", 0.7):
        # the next start finds a sidecar that answers
        mood.bad = 0
        n = len(starts)
        env.wait(env.go(start, node=node, name="starter"), 60000)
        env.check(len(starts) > n and starts[n][2] is not None and starts[n][1] is None, "C20:no-retry", "the sidecar answers "
                  "again, but starting the mesh client %s", "raised %r" % starts[n][1] if len(starts) > n else "did not end")
        env.wait(env.go(start, node=node, name="starter"), 60000)
    posts = [e for e in side.log if e[1] == APP]
    good = [e for e in posts if e[3] == "ok"]
    env.check(len(good) <= 1, "C20:registered-twice", "the application was registered %d times", len(good))
    if good:
        late = [e for e in posts if e[0] > good[0][4]]
        env.check(not late, "C20:registered-again", "%d more registrations were sent after one had succeeded", len(late))
    for e in posts:
        env.check(e[2] == info, "C20:app-info", "the application %s was registered as %s", info, e[2])
    for t0, exc, t1, tid, n0, n1 in starts:
        if exc is None:
            env.check(good and good[0][4] <= t1, "C20:false-success", "starting the mesh client succeeded although no "
                      "registration had been accepted (%s)", [e[3] for e in posts])
        else:
            mine = [e for e in posts if e[5] == tid and t0 <= e[0] <= t1]
            env.check([e for e in mine if e[3] != "ok"] and not [e for e in mine if e[3] == "ok"], "C20:false-error",
                      "starting the mesh client raised %r, but the sidecar answered %s", exc, [e[3] for e in mine])


def c20_subscribe(env):
    """clients and their subscriptions"""
    fine_setup(env)
    ch = env.ch
    k = env.k
    node = env.node("app")
    mood = Moody(env)
    side = env.sidecar(node, plan=mood, latency_ms=ch.pick("lat", [1, 20]))
    plans = Plans(env)
    reply = lambda q, conn, f, p: [(0, "hb", 0)] if p is None else [(ch.pick("delay", [0, 1, 20]), "ok", None)]
    relay = Peer(env, "app", plans, reply, port=12220, node=node)
    clis = [Cli(env, "app", kind=kd, plans=plans, node=node)
            for kd in ch.pick("clients", [["aio"], ["sock"], ["aio", "sock"], ["sock", "sock"]])]
    apps = [e for e in side.log if e[1] == APP]
    env.check(len(apps) == len(clis), "C20:registered", "%d clients sent %d registrations", len(clis), len(apps))
    usable = [e[3] == "ok" for e in apps]
    m = clis[0].image["anthunder"].SERVICE_MAP
    ADDR = ("127.0.0.1", 12220)

    def run(ci, names, todo):
        cl = clis[ci].client
        state = {n: False for n in names}
        for op, some, gap in todo:
            n0 = len([e for e in side.log if e[5] == k.current.tid])
            getattr(cl, op)(*some)
            mine = [e for e in side.log if e[5] == k.current.tid][n0:]
            if not usable[ci]:
                env.check(not mine, "C20:used-unregistered", "a client which could not register sent %s", [e[1] for e in mine])
            else:
                env.check([(e[1], e[2]) for e in mine] == [("services/" + op, {"serviceName": n}) for n in some],
                          "C20:request", "%s of %s sent %s", op, some, [(e[1], e[2]) for e in mine])
                for e, n in zip(mine, some):
                    if e[3] == "ok":
                        state[n] = op == "subscribe"
            for n in names:
                got = m.get(n)
                env.check(got == (ADDR if state[n] else None), "C20:subscribed", "%s counts as %s, but the sidecar's answers to "
                          "%s were %s", n, "subscribed" if got else "not subscribed", n,
                          [(e[1], e[3]) for e in side.log if e[2].get("serviceName") == n])
            if state and ch.bool("call", 0.3):
                n = ch.pick("call", names)
                c = clis[ci].new("sync", n, 20000, size=10)
                c.plan.result = b"R%d" % c.id
                clis[ci].run(c)
                env.check(c.content == c.plan.result and relay.requests(c), "C20:call", "a call to %s through the sidecar "
                          "ended with %r", n, c.error)
            if gap:
                env.sleep(gap)
    jobs = []
    for t in range(ch.range("wl", 1, 4)):
        names = ["com.t%d.s%d:1.0" % (t, i) for i in range(ch.range("wl", 1, 3))]
        todo = []
        for _ in range(ch.range("ops", 1, 5)):
            some = [n for n in names if ch.bool("op", 0.7)] or names[:1]
            todo.append((ch.pick("op", ["subscribe", "unsubscribe"], [3, 2]), some, ch.pick("gap", [0, 0, 1, 30])))
        jobs.append(env.go(run, ch.int("cli", len(clis)), names, todo, node=node, name="subscriber"))
    ok = env.wait(jobs, 200000)
    env.check(ok, "C20:stuck", "subscribing did not end")
    for j in jobs:
        env.check(j.exc is None, "C20:raised", "subscribing raised %r", j.exc)


def meta_ok(p, lsn_port, app):
    m = p.get("providerMetaInfo") or {}
    return str(p.get("port")) == str(lsn_port) and m.get("appName") == app and m.get("protocol") == "1" and \
        m.get("version") == "4.0" and m.get("serializeType") == "protobuf"


def c20_publish(env):
    """listeners publishing while interfaces are registered"""
    fine_setup(env)
    ch = env.ch
    k = env.k
    node = env.node("app")
    mood = Moody(env, 0.2)
    worst = mood.bad
    mood.bad = 0
    side = env.sidecar(node, plan=mood, latency_ms=ch.pick("lat", [1, 20]))
    image = env.image(node)
    ls = []
    for i in range(ch.range("cfg", 1, 2)):
        kind = ch.pick("cfg", ["aio", "sock"])
        mod = image["anthunder.listener.aio_listener"].AioListener if kind == "aio" else \
            image["anthunder.listener.sock_listener"].SockListener
        port = 12200 + i
        ls.append(env.on(node, lambda: mod(("0.0.0.0", port), "app%d" % i)))
    mood.bad = worst
    Base = image["anthunder"].BaseService
    regs = []          # (listener, name, from, surely from)

    def register(li, name):
        r = [li, name, len(clock), None]
        clock.append(0)
        regs.append(r)
        ls[li].handler.register_interface(name, Base)
        r[3] = len(clock)
        clock.append(0)
    clock = []
    runs = []

    def publisher(li, todo):
        for op, gap in todo:
            n0 = len([e for e in side.log if e[5] == k.current.tid])
            t0 = len(clock)
            clock.append(0)
            exc = None
            try:
                getattr(ls[li], op)()
            except Exception as e:
                exc = e
            t1 = len(clock)
            clock.append(0)
            mine = [e for e in side.log if e[5] == k.current.tid][n0:]
            runs.append((li, op, t0, t1, exc, mine))
            if gap:
                env.sleep(gap)
    first = [(ch.int("lsn", len(ls)), "com.a%d:1.0" % i) for i in range(ch.int("wl", 4))]
    for li, n in first:
        env.on(node, register, li, n)
    jobs = []
    for t in range(ch.range("wl", 0, 3)):
        names = [(ch.int("lsn", len(ls)), "com.t%d.s%d:1.0" % (t, i), ch.pick("gap", [0, 0, 1, 10]))
                 for i in range(ch.range("wl", 1, 5))]

        def reg(names):
            for li, n, gap in names:
                register(li, n)
                if gap:
                    env.sleep(gap)
        jobs.append(env.go(reg, names, node=node, name="registrar"))
    for _ in range(ch.range("wl", 1, 3)):
        jobs.append(env.go(publisher, ch.int("lsn", len(ls)), [(ch.pick("op", ["publish", "publish", "unpublish"]),
                                                                ch.pick("gap", [0, 1, 10]))
                                                               for _ in range(ch.range("ops", 1, 3))], node=node,
                           name="publisher"))
    ok = env.wait(jobs, 200000)
    env.check(ok, "C20:stuck", "publishing did not end")
    for j in jobs:
        env.check(j.exc is None, "C20:raised", "%r", j.exc)
    for li, op, t0, t1, exc, mine in runs:
        env.check(all(e[1] == "services/" + op for e in mine), "C20:request", "%s sent %s", op, [e[1] for e in mine])
        names = [e[2]["serviceName"] for e in mine]
        bad = [e[3] for e in mine if e[3] != "ok"]
        must = {n for l, n, a, b in regs if l == li and b is not None and b <= t0}
        may = {n for l, n, a, b in regs if l == li and a <= t1}
        env.check(set(names) <= may, "C20:foreign", "%s of a listener covered %s, which is not registered there", op,
                  sorted(set(names) - may))
        if op == "publish":
            for e in mine:
                env.check(meta_ok(e[2], ls[li].address[1], "app%d" % li), "C20:meta", "%s was published as %s",
                          e[2]["serviceName"], e[2])
        if bad:
            env.check(exc is not None, "C20:false-success", "%s succeeded although the sidecar answered %s", op, bad)
        else:
            env.check(exc is None, "C20:false-error", "%s raised %r although the sidecar accepted everything", op, exc)
            env.check(must <= set(names), "C20:not-covered", "%s left out %s, registered beforehand", op,
                      sorted(must - set(names)))
            env.probe(op)


def c20_without(env):
    """no usable sidecar: configured addresses still work"""
    setup(env)
    ch = env.ch
    plans = Plans(env)
    srv = env.node("s0")
    cln = env.node("c0")
    how = ch.pick("mood", BAD + ["none"])

    def plan(endpoint, payload):
        return how
    for n in (srv, cln):
        if how != "none":
            env.sidecar(n, plan=plan)
        else:
            env.k.fault("sidecar_absent")
    skind = ch.pick("srvkind", ["aio", "sock"])
    ckind = ch.pick("clikind", ["aio", "sock"]) if skind == "aio" else "sock"
    try:
        s = Server(env, "s0", kind=skind, plans=plans)
        c = Cli(env, "c0", kind=ckind, plans=plans)
    except (Violation, HarnessError, SimAbort):
        raise
    except Exception as e:
        env.fail("C20:unusable", "without a usable sidecar (%s) the %s server or the %s client could not be created: %r", how,
                 skind, ckind, e)
    late = ch.bool("wl", 0.5)

    def ops():
        c.client.subscribe(IFACE, IFACE2)
        if ch.bool("wl", 0.5):
            c.client.unsubscribe(IFACE)
    def pub():
        s.lsn.publish()
        if ch.bool("wl", 0.5):
            s.lsn.unpublish()
    if not late:
        c.bind(IFACE, s.node.ip)
    for fn, n in ((ops, cln), (pub, srv)):
        j = env.go(fn, node=n)
        env.check(env.wait(j, 20000), "C20:stuck", "subscribing or publishing without a sidecar did not end")
        env.check(j.exc is None, "C20:raised", "subscribing or publishing without a usable sidecar raised %r", j.exc)
    m = c.image["anthunder"].SERVICE_MAP
    env.check(IFACE2 not in m, "C20:subscribed", "an interface counts as subscribed without a usable sidecar (%s)", how)
    if late:
        env.check(IFACE not in m, "C20:subscribed", "an interface counts as subscribed without a usable sidecar (%s)", how)
    if IFACE not in m:
        c.bind(IFACE, s.node.ip)
    calls = [c.new(ch.pick("kind", ["sync", "async"] if ckind == "aio" else ["sync"]), IFACE, 20000, size=10)
             for _ in range(ch.range("wl", 1, 4))]
    for x in calls:
        x.plan.result = b"R%d" % x.id
    env.wait(spread(env, calls, 2), 60000)
    env.until(lambda: all(x.ended is not None for x in calls), 5000)
    for x in calls:
        env.check(x.content == x.plan.result, "C20:unusable", "without a usable sidecar (%s), %s of the %s client to the "
                  "configured address of the %s server ended with %r", how, x, ckind, skind, x.error)


# ------------------------------------------------------------------------------------ C23
class Reg:
    __slots__ = ("lsn", "iface", "tag", "t0", "t1", "args", "kw", "own")


CTX = {"rpc_trace_context.sofaTraceId": "0a00000112345678901231001", "rpc_trace_context.sofaRpcId": "0.1"}


def c23_dispatch(env):
    setup(env, fine=True)
    if env.ch.bool("instr", 0.3):
        _image.monitor_instructions(("anthunder.listener",))
    ch = env.ch
    k = env.k
    plans = Plans(env)
    node = env.node("srv")
    env.sidecar(node)
    image = env.image(node)
    ls = []
    for i in range(ch.range("cfg", 1, 3)):
        kind = ch.pick("cfg", ["aio", "sock"])
        ls.append(Server(env, "srv", kind=kind, port=12200 + i, plans=plans, node=node, image=image, register=False))
    ifs = ["com.a:1.0", "com.b:1.0", "com.c:2.0"]
    regs = []
    bulk = []
    ntag = [0]
    objs = []
    seq = [0]

    def tick():
        seq[0] += 1
        return seq[0]

    def register(li, iface, form):
        ntag[0] += 1
        r = Reg()
        r.lsn, r.iface, r.tag = li, iface, ntag[0]
        r.args = tuple(range(form % 3)) if form else ()
        r.kw = {"colour": "c%d" % r.tag} if form > 2 else {}
        if r.kw and ch.bool("class", 0.4):
            # one class, told apart by the arguments it was registered with
            r.kw[ch.pick("class", ["size", "colour2", "ctx2"])] = r.tag
            env.probe("class_shared")
        r.own = len(r.kw) < 2
        Base = image["anthunder"].BaseService

        class Service(Base):
            def __init__(self, ctx, *args, **kw):
                super().__init__(ctx)
                self.got = (args, kw)
                k.yp()

            def run(self, method, body, r=r):
                if not r.own:
                    r = by_colour.get(self.got[1].get("colour"), r)
                objs.append(self)
                p = plans.by_body(body)
                e = (p.id if p else None, r, self.got, method, len(objs), tick(), k.now, self)
                execs.append(e)
                k.ev("exec", e[0], r.tag)
                if p is not None and p.delay:
                    env.sleep(p.delay)
                else:
                    k.yp()
                return b"tag%d:%s" % (r.tag, method.encode())

            def echo(self, body):
                return self.run("echo", body)

            def other(self, body):
                return self.run("other", body)
        r.t0, r.t1 = tick(), None
        regs.append(r)
        if not r.own:
            by_colour[r.kw["colour"]] = r
            Service = common_cls.setdefault(ch.int("class", 2), Service)
        ls[li].lsn.handler.register_interface(iface, Service, *r.args, **r.kw)
        r.t1 = tick()
        k.ev("registered", li, iface, r.tag)
    execs = []
    by_colour, common_cls = {}, {}

    def registrar(todo):
        for li, iface, form, gap in todo:
            register(li, iface, form)
            if gap:
                env.sleep(gap)
    for _ in range(ch.range("wl", 0, 4)):
        env.on(node, register, ch.int("lsn", len(ls)), ch.pick("iface", ifs), ch.int("form", 5))
    many = ch.pick("bulk", [0, 20, 70, 150, 300], [30, 1, 1, 1, 1])
    if many:
        # the listener has many other services
        env.probe("many_services")
        for i in range(many):
            li = ch.int("bulk", len(ls))
            env.on(node, ls[li].lsn.handler.register_interface, "com.other%d:1.0" % i, image["anthunder"].BaseService)
            bulk.append((li, "com.other%d:1.0" % i))
    cnode = env.node("peer")
    reqs = []
    shared = {}

    class Rq:
        pass

    def ask(li, iface, method, delay):
        q = Rq()
        q.plan = plans.new(size=10, iface=iface, method=method, delay=delay)
        q.li, q.iface, q.method = li, iface, method
        q.t0 = tick()
        q.reply = None
        q.t1 = None
        q.rid = len(reqs) + 1
        reqs.append(q)

        extra = ch.pick("extra", [None, None, CTX, CTX, {"rpc_trace_context.sofaTraceId": "0a%027d" % q.rid}, {"a": "b"}])
        data = bolt.rpc(q.rid, iface, method, q.plan.body, timeout=20000, extra=extra)

        def opened(c):
            c.ready = True
            for x in c.todo:
                c.send(x)
            c.todo = []

        def frame(c, f):
            for x in c.reqs:
                if f.rid == x.rid:
                    x.reply = f
                    x.t1 = tick()

        def ended(c):
            for x in c.reqs:
                if x.t1 is None:
                    x.t1 = tick()
        c = shared.get(li) if ls[li].kind == "aio" and ch.bool("share", 0.5) else None
        if c is not None:
            c.reqs.append(q)
            if c.ready:
                c.send(data)
            else:
                c.todo.append(data)
            return
        c = connect(k, cnode, node.ip, 12200 + li, on_open=opened, on_frame=frame, on_end=ended)
        c.ready, c.reqs, c.todo = False, [q], [data]
        shared[li] = c
    jobs = []
    for _ in range(ch.range("wl", 0, 3)):
        todo = [(ch.int("lsn", len(ls)), ch.pick("iface", ifs), ch.int("form", 5), ch.pick("gap", [0, 1, 10]))
                for _ in range(ch.range("wl", 1, 5))]
        jobs.append(env.go(registrar, todo, node=node, name="registrar"))
    for _ in range(ch.range("wl", 1, 16)):
        ask(ch.int("lsn", len(ls)), ch.pick("iface", ifs), ch.pick("method", ["echo", "other"]),
            ch.pick("delay", [0, 0, 5]))
        g = ch.pick("gap", [0, 0, 1, 10])
        if g:
            env.sleep(g)
    ok = env.wait(jobs, 60000)
    env.check(ok, "C23:stuck", "registering did not end")
    for j in jobs:
        env.check(j.exc is None, "C23:raised", "registering an interface raised %r", j.exc)
    env.until(lambda: all(q.t1 is not None for q in reqs), 30000)
    seen = set()
    for pid, r, got, method, _, t, _, obj in execs:
        q = [q for q in reqs if q.plan.id == pid]
        env.check(q, "C23:unknown", "a method was run with a payload nobody sent")
        q = q[0]
        env.check(r.lsn == q.li, "C23:wrong-listener", "a request to listener %d ran on a service registered on listener %d",
                  q.li, r.lsn)
        env.check(r.iface == q.iface and method == q.method, "C23:wrong-service", "a request to %s.%s ran %s.%s", q.iface,
                  q.method, r.iface, method)
        env.check(got == (r.args, r.kw), "C23:arguments", "a service registered with %s was built with %s", (r.args, r.kw), got)
        newer = [x for x in regs if x.lsn == r.lsn and x.iface == r.iface and x.t0 > (r.t1 or 1 << 60) and
                 x.t1 is not None and x.t1 < q.t0]
        env.check(not newer, "C23:outdated", "a request sent after service %d was registered for %s ran on service %d, "
                  "registered before", newer[-1].tag if newer else 0, r.iface, r.tag)
        env.check(r.t0 < t, "C23:early", "a request ran on a service registered later")
        env.check(id(obj) not in seen, "C23:shared-object", "two requests ran on the same service object")
        seen.add(id(obj))
    for q in reqs:
        ex = [e for e in execs if e[0] == q.plan.id]
        env.check(len(ex) <= 1, "C23:twice", "a request ran %d times", len(ex))
        mine = [r for r in regs if r.lsn == q.li and r.iface == q.iface]
        if [r for r in mine if r.t1 is not None and r.t1 < q.t0]:
            env.check(ex, "C23:not-found", "a request to %s was not run although a service had been registered for it; the "
                      "reply was %s", q.iface, q.reply)
            env.check(q.reply is not None and q.reply.status == 0 and q.reply.content == b"tag%d:%s" % (
                ex[0][1].tag, q.method.encode()), "C23:reply", "service %d ran a request, the reply was %s", ex[0][1].tag,
                q.reply)
            env.probe("served")
        elif not [r for r in mine if r.t0 < (q.t1 or 1 << 60)]:
            env.check(q.reply is None or q.reply.status != 0, "C23:ghost", "a request to %s, registered nowhere on its "
                      "listener, was answered with %s", q.iface, q.reply)
            env.probe("unserved")
    # each listener publishes its own services only
    side = node.http
    for li, s in enumerate(ls):
        n0 = len(side.log)
        j = env.go(s.lsn.publish, node=node)
        env.wait(j, 20000)
        env.check(j.done and j.exc is None, "C23:publish", "publishing raised %r", j.exc)
        names = sorted(e[2]["serviceName"] for e in side.log[n0:] if e[1] == "services/publish")
        want = sorted({r.iface for r in regs if r.lsn == li} | {i for x, i in bulk if x == li})
        env.check(names == want, "C23:publishes", "listener %d has services for %s, but publishes %s", li, want, names)
    env.feature(listeners=len(ls), regs=len(regs))
