"""Real clients against real servers (C02, C06, C09, C15)."""
from .client_common import *
from .aioclient import carriers, conn_known_end, first_reply, sizes, forget, packages, spread

CLI_KINDS = ["aio", "sock"]
SRV_KINDS = ["aio", "sock"]


def cap_size(env, n):
    return min(n, env.net.cap * 40)


class World:
    """servers, clients and the calls between them, all of them real code"""

    def __init__(self, env, clients=None, servers=None, paired=False):
        """paired: not the asyncio client with the threaded server, which ends every connection after one reply
        and so cannot serve a client that shares one connection between its calls"""
        ch = env.ch
        self.env = env
        self.plans = Plans(env)
        if paired and servers is None:
            servers = [ch.pick("srvkind", SRV_KINDS) for _ in range(ch.range("wl", 1, 2))]
            if "sock" in servers:
                clients = clients or ["sock"] * ch.range("wl", 1, 2)
        kinds = servers or [ch.pick("srvkind", SRV_KINDS) for _ in range(ch.range("wl", 1, 2))]
        self.servers = [Server(env, "s%d" % i, kind=k, plans=self.plans) for i, k in enumerate(kinds)]
        self.ifs = [IFACE, IFACE2]
        self.home = {i: self.servers[n % len(self.servers)] for n, i in enumerate(self.ifs)}
        kinds = clients or [ch.pick("clikind", CLI_KINDS) for _ in range(ch.range("wl", 1, 2))]
        self.clients = []
        for i, k in enumerate(kinds):
            c = Cli(env, "c%d" % i, kind=k, plans=self.plans, wrap=env.wrap_start(0.1))
            for f in self.ifs:
                c.bind(f, self.home[f].node.ip)
            self.clients.append(c)
        self.calls = []
        env.feature(kinds="%s>%s" % ("".join(c.kind[0] for c in self.clients),
                                     "".join(s.kind[0] for s in self.servers)))

    def call(self, cli=None, iface=None, kinds=None, timeout=None, delay=None, size=None, kind=None, fail=True):
        env, ch = self.env, self.env.ch
        cli = cli or ch.pick("cli", self.clients)
        iface = iface or ch.pick("iface", self.ifs)
        how = kind or ch.pick("kind", kinds or ["sync", "sync", "async", "cb", "oneway"])
        if cli.kind == "sock" and how in ("async", "cb"):
            how = "sync"
        if size is None:
            size = ch.pick("size", [10, 0, 300, 3000, 30000, 300000], [5, 1, 3, 3, 2, 1])
        if timeout is None:
            timeout = ch.pick("T", [60000, 20000.5, 600], [6, 2, 1])
        if delay is None:
            delay = ch.pick("delay", [0, 1, 20, 200], [6, 3, 2, 1])
        out = ch.pick("out", ["ok", "raise", "none"], [10, 1, .5]) if fail else "ok"
        c = cli.new(how, iface, timeout, size=cap_size(env, size), delay=delay, kind=out,
                    method=ch.pick("method", METHODS))
        rsize = cap_size(env, ch.pick("rsize", [5, 0, 300, 3000, 30000, 200000], [5, 1, 3, 3, 1, .5]))
        c.plan.result = lead(env) + b"R%d:" % c.plan.id + pad(c.plan.id + 3, rsize)
        if not rsize and ch.bool("rsize", 0.4):
            c.plan.result = b""
        self.calls.append(c)
        return c

    def start(self, calls, threads, gaps=(0, 0, 1, 30)):
        """each client makes its calls from some threads"""
        jobs = []
        for cli in self.clients:
            mine = [c for c in calls if c.client is cli]
            if mine:
                jobs += spread(self.env, mine, threads, gaps)
        return jobs

    def server_of(self, c):
        return self.home[c.iface]

    def quiet(self, extra=1300):
        """wait until nothing happens any more"""
        env = self.env
        last, n = None, 0
        for _ in range(2000):
            env.sleep(100)
            cur = (len(self.plans.execs), sum(e.t1 is not None for e in self.plans.execs), env.net.bytes)
            n = n + 1 if cur == last else 0
            last = cur
            if n * 100 > extra + env.net.max_latency * 4 // MS:
                return


def judge_execs(env, w, sig):
    """every execution is caused by a call, with its names and bytes"""
    for e in w.plans.execs:
        p = w.plans.plans.get(e.id)
        env.check(p is not None, sig + ":exec-unknown", "a method was run with a payload nobody sent: %s", short(e.body))
        env.check(type(e.body) is bytes, sig + ":payload-type", "the method of call %d received %s", p.id, type(e.body))
        env.check(e.body == p.body, sig + ":payload", "call %d sent %d bytes, its method received %d other bytes: %s",
                  p.id, len(p.body), len(e.body), short(e.body))
        env.check((e.iface, e.method) == (p.iface, p.method), sig + ":wrong-method", "call %d to %s.%s ran %s.%s",
                  p.id, p.iface, p.method, e.iface, e.method)


def judge_once(env, w, calls, sig):
    for c in calls:
        if c.t0 is None:
            continue
        ex = w.plans.of(c.plan)
        for e in ex:
            env.check(e.node == w.server_of(c).node.name, sig + ":wrong-server", "%s was run by another server", c)
            env.check(e.t0 >= c.t0, sig + ":exec-early", "%s was run before it was made", c)
        if len(ex) > 1:
            cs = carriers(env, c.client, c)
            broken = [x for x in cs if x.ended_at() is not None]
            env.check(len(cs) >= len(ex) and len(broken) >= len(ex) - 1, sig + ":executed-twice",
                      "%s was executed %d times; it was sent on %d connections, %d of them failed", c, len(ex), len(cs),
                      len(broken))
            env.probe("executed_again_after_failure")
        if c.content is not None:
            env.check(c.kind != "oneway", sig + ":oneway-result", "%s returned %s", c, short(c.content))
            env.check(ex, sig + ":not-executed", "%s succeeded but was never executed", c)
            env.check(any(e.t1 is not None and e.t1 <= c.ended for e in ex), sig + ":early-success",
                      "%s succeeded before its method had ended", c)
            env.check(c.plan.kind == "ok" and c.content == c.plan.result, sig + ":result",
                      "%s returned %s, its method %s", c, short(c.content),
                      "returned " + short(c.plan.result) if c.plan.kind == "ok" else "failed")
            env.probe("succeeded")
        elif c.kind == "sync" and c.t1 is not None:
            env.check(c.exc is not None, sig + ":none", "%s returned nothing and raised nothing", c)


def judge_wire(env, w, sig):
    """what the clients wrote are requests of their calls, each telling how long its caller waits"""
    calls = {c.plan: c for c in w.calls}
    for cli in w.clients:
        for x in env.net.conns:
            if x.a.node is not cli.node:
                continue
            fs, rest = bolt.frames("req", x.ab.rec)
            for f in fs:
                if f.cmd == bolt.HEARTBEAT:
                    continue
                p = w.plans.by_body(f.content) or \
                    w.plans.twins and w.plans.by_mark({"call": f.headers().get("rpc_trace_context.call")})
                env.check(p and p in calls, sig + ":wire-unknown", "a client sent a request nobody made: %r", f)
                c = calls[p]
                if c.kind == "oneway":
                    env.check(f.timeout <= 0, sig + ":wire-timeout", "%s told its server a timeout of %s ms", c, f.timeout)
                    env.check(f.ptype == bolt.ONEWAY, sig + ":wire-type", "%s was sent as request type %s", c, f.ptype)
                else:
                    env.check(abs(f.timeout - c.timeout) < 1, sig + ":wire-timeout", "%s has a timeout of %s ms, its "
                              "server was told %s ms", c, c.timeout, f.timeout)
                    env.check(f.ptype == bolt.REQUEST, sig + ":wire-type", "%s was sent as request type %s", c, f.ptype)


# ------------------------------------------------------------------------------------ C02
def c02_payload(env):
    setup(env)
    ch = env.ch
    w = World(env)
    w.plans.twins = ch.bool("twins", 0.12)
    faulty = ch.bool("faulty", 0.5)
    jobs = []
    for rnd in range(ch.range("wl", 1, 2)):
        if rnd:
            env.sleep(gap(env, [0, 0, 0, 3000]))
        calls = [w.call() for _ in range(ch.range("wl", 1, 10))]
        jobs += w.start(calls, ch.range("wl", 1, 4))
        if faulty:
            for _ in range(ch.range("fault", 1, 3)):
                env.sleep(ch.pick("fault", [0, 1, 7, 40, 300]))
                f = ch.pick("fault", ["netreset", "partition", "crash", "stall", "slow"])
                srv = ch.pick("fault", w.servers)
                if f == "netreset":
                    live = [x for x in env.net.conns if x.a.state == "open"]
                    if live:
                        env.k.fault("net_reset")
                        env.net.reset(ch.pick("fault", live))
                elif f in ("partition", "stall"):
                    cli = ch.pick("fault", w.clients)
                    env.net.stall(cli.node, srv.node)
                    env.sleep(ch.pick("fault", [10, 500, 3000]))
                    env.net.heal(cli.node, srv.node)
                elif f == "crash" and srv.node.alive:
                    srv.crash(silent=ch.bool("fault", 0.3))
                    env.sleep(ch.pick("fault", [0, 5, 300]))
                    srv.restart()
                elif f == "slow":
                    l = env.net.link(ch.pick("fault", w.clients).node, srv.node)
                    l.base = ch.pick("fault", [50, 300]) * MS
                    env.k.fault("slow_link")
        ok = env.wait(jobs, 400000)
        env.check(ok, "C02:stuck", "a call did not end within minutes")
    w.quiet()
    env.net.heal_all()
    w.quiet()
    judge_execs(env, w, "C02")
    judge_wire(env, w, "C02")
    judge_once(env, w, w.calls, "C02")
    if not faulty:
        for c in w.calls:
            ex = w.plans.of(c.plan)
            if c.client.kind == "aio" and w.server_of(c).kind == "sock":
                continue
            slow = c.kind == "sync" and c.exc is not None and c.t1 - c.t0 >= c.timeout * MS - env.eps
            if slow:
                env.probe("timed_out")
                continue
            # nothing failed and there was time: the call was run once and ended with its method's result
            env.check(len(ex) == 1, "C02:lost", "%s was executed %d times although nothing failed; it ended with %r",
                      c, len(ex), c.error)
            if c.plan.kind == "ok" and c.kind != "oneway" and not (c.timeout < 1000):
                env.check(c.content == c.plan.result, "C02:lost-result", "%s was executed but ended with %r", c, c.error)
    env.feature(calls=len(w.calls), faulty=faulty)


def c02_large(env):
    """payloads and results of megabytes"""
    setup(env, net=False, fine=False)
    ch = env.ch
    env.net.cap = ch.pick("net", [1 << 18, 1 << 20, 1 << 22])
    env.net.base = ch.pick("net", [50, 1000]) * US
    w = World(env, clients=[ch.pick("clikind", CLI_KINDS)], servers=[ch.pick("srvkind", SRV_KINDS)])
    sizes_ = [1 << 16, (1 << 16) - 6, 1 << 20, (1 << 20) + 1, 3000000, 5 << 20, 10]
    cw = [1, 1, 2, 2, 2, 2, 2]
    if ch.bool("huge", 0.1):
        sizes_, cw = sizes_ + [(16 << 20) + 3], cw + [4]
        env.net.cap = 1 << 22
    jobs = []
    for _ in range(ch.range("wl", 1, 3)):
        c = w.call(timeout=120000, size=0, delay=0, fail=False)
        n = ch.pick("size", sizes_, cw)
        c.plan.body += pad(c.plan.id, n)
        rs = ch.pick("rsize", sizes_, cw)
        c.plan.result = b"R%d:" % c.plan.id + pad(c.plan.id + 3, rs)
    jobs = w.start(w.calls, ch.range("wl", 1, 2))
    env.wait(jobs, 400000)
    w.quiet()
    judge_execs(env, w, "C02")
    judge_wire(env, w, "C02")
    judge_once(env, w, w.calls, "C02")
    for c in w.calls:
        if c.client.kind == "aio" and w.server_of(c).kind == "sock" and len(w.calls) > 1:
            continue
        env.check(len(w.plans.of(c.plan)) == 1, "C02:lost", "%s of %d bytes was executed %d times although nothing "
                  "failed; it ended with %r", c, len(c.plan.body), len(w.plans.of(c.plan)), c.error)
        if c.kind != "oneway":
            env.check(c.content == c.plan.result, "C02:lost-result", "%s with a result of %d bytes was executed but "
                      "ended with %r", c, len(c.plan.result), c.error)


# ------------------------------------------------------------------------------------ C06
def all_good(env, w, name):
    """with faults over, calls succeed after a few attempts, and go on to"""
    ch = env.ch
    patience = ch.pick("patience", [20000, 3000])
    for cli in w.clients:
        for i in w.ifs:
            tries = []
            for attempt in range(4):
                c = w.call(cli, i, kind="sync", timeout=patience, delay=0, size=10, fail=False)
                c.plan.result = b"ok"
                j = cli.go([c])
                env.wait(j, 60000)
                tries.append(repr(c.error) if c.content is None else "ok")
                if c.content is not None:
                    break
            env.check(c.content is not None, "C06:no-recovery", "%s client on %s server still fails (%s) although "
                      "faults have stopped: %s", cli.kind, w.home[i].kind, name, tries)
            if len(tries) > 1:
                env.probe("failed_attempts_before_recovery")
            for _ in range(2):
                c = w.call(cli, i, kind="sync", timeout=20000, delay=0, size=10, fail=False)
                env.wait(cli.go([c]), 60000)
                env.check(c.content is not None, "C06:relapse", "%s client on %s server fails again (%s) after it "
                          "had recovered: %r", cli.kind, w.home[i].kind, name, c.error)
    together = [w.call(cli, i, timeout=20000, delay=0, size=ch.pick("size", [10, 3000]), fail=False,
                       kinds=["sync", "async", "cb"])
                for cli in w.clients for i in w.ifs for _ in range(ch.range("wl", 1, 3))]
    js = w.start(together, 6, gaps=(0, 0, 0, 1))
    env.wait(js, 120000)
    env.until(lambda: all(c.ended is not None for c in together), 30000, 20)
    for c in together:
        env.check(c.content == c.plan.result, "C06:concurrent", "%s of the %s client on the %s server failed (%s) "
                  "although all had recovered: %r", c, c.client.kind, w.server_of(c).kind, name,
                  c.error if c.ended is not None else "never ended")


def c06_recover(env):
    setup(env)
    ch = env.ch
    env.net.cap = max(env.net.cap, 1024)
    w = World(env, paired=True)
    storm = []
    jobs = []

    all_good(env, w, "before")
    for rnd in range(ch.range("wl", 1, 3)):
        calls = [w.call(size=ch.pick("size", [10, 3000, 30000]), timeout=ch.pick("T", [2000, 300, 30]),
                        delay=ch.pick("delay", [0, 5, 100, 500])) for _ in range(ch.range("wl", 0, 8))]
        storm += calls
        jobs += w.start(calls, ch.range("wl", 1, 5))
        for _ in range(ch.range("fault", 1, 3)):
            env.sleep(ch.pick("fault", [0, 1, 7, 40, 300, 3000]))
            f = ch.pick("fault", ["netreset", "partition", "crash", "silent", "refuse", "slam", "emfile"])
            srv = ch.pick("fault", w.servers)
            cli = ch.pick("fault", w.clients)
            if f == "netreset":
                for x in [x for x in env.net.conns if x.a.state == "open"]:
                    if ch.bool("fault", 0.6):
                        env.k.fault("net_reset")
                        env.net.reset(x)
            elif f == "partition":
                env.net.stall(cli.node, srv.node)
            elif f in ("crash", "silent"):
                if srv.node.alive:
                    srv.crash(silent=f == "silent")
            elif f == "refuse":
                env.k.fault("refuse")
                env.net.link(cli.node, srv.node).refuse = True
            elif f == "slam":
                env.k.fault("slam")
                env.net.link(cli.node, srv.node).slam = ch.pick("fault", [100, 50])
                if ch.bool("fault", 0.5):
                    for x in [x for x in env.net.conns if x.a.state == "open"]:
                        env.net.reset(x)
            elif f == "emfile":
                env.k.fault("emfile_next")
                cli.node.emfile = ch.range("fault", 1, 2)
            if ch.bool("fault", 0.5):
                more = [w.call(cli, timeout=ch.pick("T", [1000, 100]), size=10) for _ in range(2)]
                storm += more
                jobs += w.start(more, 2)
                env.sleep(ch.pick("fault", [0, 5, 800, 5000]))
        # everything is repaired
        env.net.heal_all()
        for s in w.servers:
            if not s.node.alive:
                s.restart()
        for cli in w.clients:
            cli.node.emfile = 0
        env.sleep(gap(env, [0, 5, 200, 3000]))
        if ch.bool("wl", 0.5):
            env.wait(jobs, 300000)
        all_good(env, w, "round %d" % rnd)
    ok = env.wait(jobs, 300000)
    env.check(ok, "C06:stuck", "calls made during faults are still running minutes after the faults stopped")
    judge_execs(env, w, "C06")
    judge_once(env, w, w.calls, "C06")
    for cli in w.clients:
        if cli.kind == "aio":
            for s in w.servers:
                n = len(cli.conns(s.node.ip))
                env.check(n <= 1, "C06:connections", "the client has %d connections to one server", n)


def c06_outage(env):
    """a long outage, with more failed calls than any counter, pool or back-off of a client should remember"""
    setup(env, fine=False)
    ch = env.ch
    env.net.cap = max(env.net.cap, 1024)
    w = World(env, paired=True)
    all_good(env, w, "before")
    jobs = []
    for rnd in range(ch.pick("wl", [1, 2], [4, 1])):
        kind = ch.pick("fault", ["down", "refuse", "silent", "partition", "emfile", "accept", "slam"])
        srv = ch.pick("fault", w.servers)
        mine = [i for i in w.ifs if w.home[i] is srv]
        env.k.fault("outage_" + kind)
        if kind in ("down", "silent"):
            srv.crash(silent=kind == "silent")
        else:
            for cli in w.clients:
                if kind == "partition":
                    env.net.stall(cli.node, srv.node)
                elif kind == "emfile":
                    cli.node.emfile = 1 << 20
                elif kind == "refuse":
                    env.net.link(cli.node, srv.node).refuse = True
                elif kind == "slam":
                    env.net.link(cli.node, srv.node).slam = ch.pick("fault", [100, 50])
            if kind in ("refuse", "emfile", "slam"):
                for x in [x for x in env.net.conns if x.a.state == "open"]:
                    env.net.reset(x)
        drop = kind == "accept"      # connections are accepted, but end at once, as with nobody behind a balancer
        n = ch.logint("wl", 120) + 10
        threads = ch.pick("wl", [1, 3, 8])
        quick = kind in ("down", "refuse", "emfile", "accept", "slam")
        calls = [w.call(iface=ch.pick("iface", mine), size=10, delay=0,
                        timeout=ch.pick("T", [30, 200, 1000] if not quick else [200, 2000]),
                        kinds=["sync", "sync", "async", "cb", "oneway"]) for _ in range(n)]
        js = w.start(calls, threads, gaps=(0, 1, 5) if ch.bool("wl", 0.6) else (300, 100, 1000))
        jobs += js
        end = env.k.now + ch.pick("fault", [100, 1000, 20000, 200000]) * MS
        while drop and not all(j.done for j in js) and env.k.now < end:
            for x in [x for x in env.net.conns if x.a.state == "open"]:
                env.net.reset(x)
            env.sleep(3)
        env.wait(js, max(1, (end - env.k.now) // MS))
        if sum(c.ended is not None and c.content is None for c in calls) > 20:
            env.probe("many_failed_in_one_outage")
        env.net.heal_all()
        if not srv.node.alive:
            srv.restart()
        for cli in w.clients:
            cli.node.emfile = 0
        env.sleep(gap(env, [0, 5, 200, 3000]))
        if ch.bool("wl", 0.5):
            env.wait(jobs, 600000)
        all_good(env, w, "outage %d" % rnd)
    ok = env.wait(jobs, 600000)
    env.check(ok, "C06:stuck", "calls made during faults are still running minutes after the faults stopped")
    judge_execs(env, w, "C06")
    judge_once(env, w, w.calls, "C06")


# ------------------------------------------------------------------------------------ C09
def c09_oneway(env):
    setup(env)
    ch = env.ch
    w = World(env, paired=True)
    w.plans.twins = ch.bool("twins", 0.12)
    down = ch.bool("faulty", 0.35)
    calls = [w.call(kinds=["oneway", "oneway", "oneway", "sync", "cb"]) for _ in range(ch.range("wl", 1, 12))]
    if down:
        mode = ch.pick("fault", ["refuse", "partition", "crash", "silent", "netreset"])
        srv = ch.pick("fault", w.servers)

        def go():
            if mode == "refuse":
                env.k.fault("refuse")
                for c in w.clients:
                    env.net.link(c.node, srv.node).refuse = True
            elif mode == "partition":
                for c in w.clients:
                    env.net.stall(c.node, srv.node)
            elif mode in ("crash", "silent"):
                env.net.crash_node(srv.node, mode == "silent")
            else:
                env.k.fault("net_reset")
                for x in list(env.net.conns):
                    env.net.reset(x)
        d = ch.pick("fault", [0, 1, 20, 100])
        if d:
            env.k.after(d * MS, go)
        else:
            go()
    jobs = w.start(calls, ch.range("wl", 1, 4))
    env.wait(jobs, 200000)
    env.net.heal_all()
    w.quiet()
    for c in calls:
        if c.kind != "oneway" or c.t0 is None:
            continue
        if c.client.kind == "aio":
            env.check(c.t1 is not None and c.t1 - c.t0 <= env.eps, "C09:blocks", "%s held up its caller for %.1f ms", c,
                      ((c.t1 or env.k.now) - c.t0) / 1e6)
            env.check(c.exc is None, "C09:raises", "%s raised %r to its caller", c, c.exc)
        env.check(c.result is None, "C09:result", "%s returned %r", c, c.result)
        ex = w.plans.of(c.plan)
        if not down:
            env.check(c.exc is None, "C09:raises", "%s raised %r although nothing failed", c, c.exc)
            env.check(len(ex) == 1, "C09:executions", "%s was executed %d times although nothing failed", c, len(ex))
        mark = b"#%d#" % c.id
        for x in carriers(env, c.client, c):
            frames, rest = request_frames(x)
            replies, _ = response_frames(x)
            mine = [f for f in frames if mark in f.content[:20] or mark in f.hdr]
            for f in mine:
                env.check(f.ptype == bolt.ONEWAY, "C09:not-marked", "%s was sent as ptype %d", c, f.ptype)
                env.check(not [r for r in replies if r.rid == f.rid], "C09:answered", "the server answered %s: %r", c,
                          [r for r in replies if r.rid == f.rid])
    judge_execs(env, w, "C09")
    judge_once(env, w, calls, "C09")


def c09_flood(env):
    """more one-way calls than any queue of the servers or clients is long: each is run, and once"""
    setup(env, fine=False)
    ch = env.ch
    env.net.cap = max(env.net.cap, 4096)
    w = World(env, paired=True)
    w.plans.twins = ch.bool("twins", 0.12)
    n = ch.range("wl", 60, 200)
    slow = ch.pick("delay", [0, 1, 100, 1000])
    iface = ch.pick("iface", w.ifs + [None])
    calls = [w.call(iface=iface, kind="oneway" if ch.bool("kind", 0.95) else "sync", size=10,
                    delay=slow if ch.bool("delay", 0.9) else 0, timeout=600000, fail=False) for _ in range(n)]
    for c in calls:
        c.plan.result = b"R%d" % c.id
    waiting = []
    aio = [x for x in w.clients if x.kind == "aio"]
    if aio and ch.bool("busy", 0.2):
        # the client has very many other calls under way
        env.probe("busy_client")
        cli = ch.pick("busy", aio)
        waiting = [w.call(cli, kind="async", size=10, delay=ch.pick("delay", [50, 2000]), timeout=600000, fail=False)
                   for _ in range(ch.pick("busy", [40, 110, 160]))]
        for c in waiting:
            c.plan.result = b"R%d" % c.id
        calls = waiting + calls
        env.crowd = len(calls) * 300 * US
    jobs = w.start(calls, ch.pick("wl", [1, 3, 8]), gaps=ch.pick("gaps", [(0,), (0, 0, 0, 1), (0, 1, 5)]))
    env.wait(jobs, 900000)
    w.quiet(slow * 2 + (500 if not waiting else 500 + 2000 * len(waiting) // 15))
    for c in calls:
        if c.t0 is None:
            continue
        if c.client.kind == "aio" and c.kind == "oneway":
            env.check(c.t1 is not None and c.t1 - c.t0 <= env.eps, "C09:blocks", "%s held up its caller for %.1f ms", c,
                      ((c.t1 or env.k.now) - c.t0) / 1e6)
        env.check(c.exc is None, "C09:raises", "%s raised %r although nothing failed", c, c.exc)
        env.check(c.kind != "oneway" or c.result is None, "C09:result", "%s returned %r", c, c.result)
        ex = w.plans.of(c.plan)
        env.check(len(ex) == 1, "C09:executions", "%s was executed %d times although nothing failed", c, len(ex))
    judge_execs(env, w, "C09")


def c09_residue(env):
    """one-way calls leave nothing behind in the asyncio client"""
    setup(env)
    ch = env.ch
    w = World(env, clients=["aio"], servers=["aio"] * ch.range("wl", 1, 2))
    cli = w.clients[0]
    for i in w.ifs:
        c = w.call(cli, i, kind="sync", timeout=20000, delay=0, size=10, fail=False)
        env.wait(cli.go([c]), 60000)
    env.sleep(200)
    env.gc()
    base = sizes(env, cli), len(env.tasks(cli.node)), env.timers(cli.node)
    calls = [w.call(cli, kind="oneway") for _ in range(ch.range("wl", 1, 12))]
    srv = ch.pick("fault", w.servers)
    mode = ch.pick("fault", ["", "", "netreset", "refuse", "partition"])
    if mode == "netreset":
        env.k.fault("net_reset")
        for x in list(env.net.conns):
            env.k.after(ch.pick("fault", [0, 1, 20]) * MS, env.net.reset, x)
    elif mode == "refuse":
        env.k.fault("refuse")
        env.net.link(cli.node, srv.node).refuse = True
        for x in list(env.net.conns):
            env.net.reset(x)
    elif mode == "partition":
        env.k.after(ch.pick("fault", [0, 1, 20]) * MS, env.net.stall, cli.node, srv.node)
    jobs = w.start(calls, ch.range("wl", 1, 4))
    env.wait(jobs, 30000)
    env.sleep(2000)
    env.net.heal_all()
    w.quiet(3000)
    ids = len(calls)
    forget(cli.calls)
    del calls[:]
    c = None
    w.calls = []
    env.gc()
    after = sizes(env, cli), len(env.tasks(cli.node)), env.timers(cli.node)
    for path, n in after[0].items():
        b = base[0].get(path)
        env.check(b is None and n == 0 or b is not None and n <= b, "C09:residue",
                  "%s holds %d entries after %d one-way calls, it held %s before", path, n, ids, b)
    env.check(after[1] <= base[1], "C09:tasks", "%d tasks are left after one-way calls, there were %d before: %s",
              after[1], base[1], [t.get_coro().__name__ for t in env.tasks(cli.node)])
    left = packages(env, cli)
    env.check(left["packages"] <= len(cli.conns()), "C09:packages", "%d request or response objects are still alive "
              "after one-way calls", left["packages"])


# ------------------------------------------------------------------------------------ C15
BAG = ["user", "k_1", "penetrate", "x", "a.b", "rpc_trace_context.z", "User", "Request-Id", "prefix", "expand", "items",
       "__class__", "k" * 80]
VALS = ["", "a.b=c&d", "x" * 300, "y" * 5000, " v ", "0", "None", "Va%20Lue"]


def show(ctx):
    """what a context carries, as text"""
    return {k: str(v) for k, v in ctx.baggage.items()}


def valid_fresh(env, bag, sig, what):
    import re as _re
    env.check(_re.fullmatch(r"\d+(\.\d+)*", bag.get("sofaRpcId", "")), sig + ":rpcid", "%s got the rpc id %r", what,
              bag.get("sofaRpcId"))
    t = bag.get("sofaTraceId", "")
    env.check(len(t) >= 20 and _re.fullmatch(r"[0-9a-f]{8}\d+", t), sig + ":traceid", "%s got the trace id %r", what, t)


def c15_context(env):
    setup(env)
    ch = env.ch
    w = World(env, paired=True)
    if ch.bool("noname", 0.1):
        for x in w.servers + w.clients:
            x.node.noname = True
    pool = []          # (client, context, span or None)
    for cli in w.clients:
        m = cli.image["mytracer"]
        root = env.on(cli.node, lambda: m.new_span("root"))
        pool.append((cli, root.context, root))
        for i in range(ch.range("wl", 1, 3)):
            kw = {}
            if ch.bool("ctx", 0.7):
                kw["sofaTraceId"] = ch.pick("ctx", ["0a0b0c0d%d" % i, "trace-%d" % i, "T\u00e9\u4e2d%d" % i])
            if ch.bool("ctx", 0.7):
                kw["sofaRpcId"] = ch.pick("ctx", ["0", "1", "0.1.%d" % i, "9.%d.12345" % i])
            for b in BAG:
                if ch.bool("ctx", 0.2):
                    kw[b] = ch.pick("ctx", ["v%d" % i, "\u4e2d\u6587%d" % i] + VALS)
            if ch.bool("ctx", 0.1):
                for j in range(ch.range("ctx", 10, 60)):
                    kw["m%d" % j] = "v%d.%d" % (i, j)
            ctx = cli.ctx(**kw)
            pool.append((cli, ctx, None))
    nested = ch.bool("nested", 0.5)
    inner = {}
    if nested:
        # a service that itself calls on, with its own context or a child of it
        s = w.servers[0]
        kinds = ch.pick("nested", CLI_KINDS) if all(x.kind == "aio" for x in w.servers) else "sock"
        inner_cli = Cli(env, kind=kinds, plans=w.plans, node=s.node)
        for f in w.ifs:
            inner_cli.bind(f, w.home[f].node.ip)

        def hook_for(c2, how):
            def hook(svc, e):
                m = s.image["mytracer"]
                before = show(svc.ctx)
                if how == "same":
                    ctx = svc.ctx
                elif how == "child":
                    ctx = m.SpanContext(m_ref(m, svc.ctx))
                else:
                    ctx = m.tracer.start_span("inner", child_of=svc.ctx).context
                inner[c2.id] = show(ctx)
                env.sleep(ch.pick("gap", [0, 1, 10]))
                inner_cli.run(c2, ctx=ctx)
                env.steps += 1
                if show(svc.ctx) != before:
                    env.k.deferred = Violation("C15:handler-changed", "the context of call %s changed while its handler "
                                               "made a call: %s -> %s" % (e.id, before, show(svc.ctx)))
            return hook

        def m_ref(m, ctx):
            import opentracing
            return opentracing.child_of(ctx)
    want = {}
    calls = []
    jobs = []
    span_of = {}
    for _ in range(ch.range("wl", 1, 12)):
        cli, ctx, root = ch.pick("pool", pool)
        c = w.call(cli, kinds=["sync", "sync", "async", "cb", "oneway"], timeout=60000, fail=False,
                   size=ch.pick("size", [10, 0, 3000]))
        m = cli.image["mytracer"]
        if root is not None:
            how = ch.pick("span", ["child", "follow", "same"])
            if how == "child":
                ctx = env.on(cli.node, lambda: m.child_span_of(root, "op").context)
            elif how == "follow":
                kid = env.on(cli.node, lambda: m.child_span_of(root, "op"))
                ctx = env.on(cli.node, lambda: m.follows_span_from(kid, "op").context)
        c.info["ctx"] = ctx
        want[c.id] = show(ctx)
        if nested and w.server_of(c) is w.servers[0] and ch.bool("nested", 0.5):
            c2 = Call(inner_cli, "sync", w.plans.new(iface=ch.pick("iface", w.ifs), size=5), None, 60000)
            c2.iface = c2.plan.iface
            c2.plan.result = b"inner"
            inner_cli.calls.append(c2)
            w.calls.append(c2)
            c.plan.info = {"hook": hook_for(c2, ch.pick("nested", ["same", "child", "span"]))}
        calls.append(c)
    n = ch.range("wl", 1, 5)

    def run(cs):
        for c in cs:
            c.client.run(c, ctx=c.info["ctx"])
            if ch.bool("gap", 0.3):
                env.sleep(ch.pick("gap", [1, 20]))
    for cli in w.clients:
        mine = [c for c in calls if c.client is cli]
        jobs += [env.go(run, mine[i::n], node=cli.node, name="caller") for i in range(n) if mine[i::n]]
    # requests of other implementations, without some or all of the context
    raws = []
    if ch.bool("raw", 0.6):
        from .aioserver import RawClient, Req
        for j in range(ch.range("raw", 1, 4)):
            cl = RawClient(env, env.node("raw%d" % (j % 2)), ch.pick("raw", w.servers).node.ip, slow=False)
            extra = {}
            if ch.bool("raw", 0.4):
                extra["rpc_trace_context.sofaTraceId"] = "rawtrace%d" % j
            if ch.bool("raw", 0.4):
                extra["rpc_trace_context.sofaRpcId"] = "3.%d" % j
            if ch.bool("raw", 0.3):
                extra["rpc_trace_context.user"] = "raw%d" % j
            for b in ["a.b.c", "reference", "self"] + BAG:
                if ch.bool("raw", 0.12):
                    extra["rpc_trace_context." + b] = ch.pick("raw", ["raw%d" % j] + VALS)
            extra["trace.other"] = "no context"
            p = w.plans.new(size=5)
            p.result = b"raw"
            cl.add(Req(j + 1, bolt.rpc(j + 1, IFACE, "echo", p.body, extra=extra), "ok", p))
            raws.append((cl, p, {k.split(".", 1)[1]: v for k, v in extra.items() if k.startswith("rpc_trace")}))
    ok = env.wait(jobs, 200000)
    env.check(ok, "C15:stuck", "calls did not end within minutes")
    # a first packet may be dropped by a full accept queue and sent again a second later
    env.until(lambda: all(w.plans.of(p) for _, p, _ in raws), 30000, 50)
    w.quiet()
    want.update(inner)
    for e in w.plans.execs:
        if e.id in want:
            got = show(e.ctx)
            env.check(got == want[e.id], "C15:context", "call %d carried %s, its service saw %s", e.id, want[e.id], got)
            env.check(e.ctx.baggage["sofaRpcId"].__class__.__name__ == "RpcId", "C15:rpcid-type", "the service of call "
                      "%d saw an rpc id of type %s", e.id, type(e.ctx.baggage["sofaRpcId"]))
    for c in w.calls:
        if c.id in want and c.t0 is not None:
            env.check(w.plans.of(c.plan), "C15:not-run", "%s was not executed; it ended with %r", c, c.error)
    for c in calls:
        env.check(show(c.info["ctx"]) == want[c.id], "C15:caller-changed", "the caller's context of %s changed from %s "
                  "to %s", c, want[c.id], show(c.info["ctx"]))
    seen = {}
    for cl, p, sent in raws:
        ex = w.plans.of(p)
        env.check(len(ex) == 1, "C15:not-run", "a request without a full context was executed %d times", len(ex))
        got = show(ex[0].ctx)
        valid = dict(got)
        for k, v in sent.items():
            env.check(got.get(k) == v, "C15:context", "a request carried %s, its service saw %s", sent, got)
        if "sofaTraceId" not in sent:
            env.check(got.get("sofaTraceId") not in seen, "C15:trace-reused", "two requests without trace id got the "
                      "same one: %s", got.get("sofaTraceId"))
            seen[got.get("sofaTraceId")] = 1
            valid_fresh(env, dict(got, sofaRpcId="1"), "C15", "a request without trace id")
        if "sofaRpcId" not in sent:
            valid_fresh(env, dict(got, sofaTraceId="0" * 20), "C15", "a request without rpc id")
        left = {k for k in got if k not in ("sofaTraceId", "sofaRpcId")} - set(sent)
        env.check(not left, "C15:leak", "a request carried %s, its service saw %s", sent, got)
    for c in calls:
        if c.kind == "sync":
            env.check(c.content == c.plan.result, "C15:failed", "%s failed although nothing was broken: %r", c, c.error)
