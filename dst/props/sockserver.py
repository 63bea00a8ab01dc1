"""The threaded server under scripted clients (C14), heartbeats to both servers (C08)."""
from .aioserver import *
from .aioserver import RawClient, Req, good_request, hogs, misbehave, starve, settle, fast_net


def server_threads(env, node):
    return [t for t in env.k.threads if t.node is node and t.state != 2]


def judge14(env, plans, cl, r, must=True):
    """the only (or first) request of a connection against what the server sent on it"""
    frames, rest = cl.replies()
    env.check(not rest, "C14:garbage", "server sent %d bytes that are no complete frame: %s", len(rest), short(rest))
    ids = [q.rid for q in cl.reqs]
    env.check(len(frames) <= len(cl.reqs), "C14:extra", "%d replies to %d requests", len(frames), len(cl.reqs))
    for f in frames:
        env.check(f.rid in ids, "C14:unsolicited", "reply with id %d which no request on this connection had", f.rid)
        env.check(f.ptype == bolt.RESPONSE, "C14:ptype", "a reply is not marked as a response: %r", f)
    mine = [f for f in frames if f.rid == r.rid]
    env.check(len(mine) <= 1, "C14:duplicate", "request %d (%s) was answered %d times", r.rid, r.kind, len(mine))
    arr = cl.arrival(r)
    for f in mine:
        env.check(arr is not None and f.t >= arr, "C14:early", "request %d was answered before it had arrived", r.rid)
        env.check(r.kind != "oneway", "C14:oneway-reply", "one-way request %d was answered: %r", r.rid, f)
        if r.kind == "hb":
            env.check(f.cmd == bolt.HEARTBEAT and f.status == 0, "C14:heartbeat", "heartbeat answered with %r", f)
            continue
        env.check(f.cmd == bolt.CMD_RESPONSE, "C14:cmd", "reply with wrong command code: %r", f)
        ok = r.kind in ("ok", "empty", "big")
        if ok:
            env.check(f.status == 0 and f.content == r.plan.result, "C14:content", "request %d: reply status %d content "
                      "%s, the method returned %s", r.rid, f.status, short(f.content), short(r.plan.result))
        else:
            env.check(f.status != 0, "C14:failed-success", "request %d (%s) failed but was answered with success", r.rid,
                      r.kind)
    closed = cl.server_closed_at()
    if must and arr is None:
        env.check(closed is None, "C14:closed-early", "the server closed the connection of request %d (%s) before the "
                  "request was complete", r.rid, r.kind)
    if must and arr is not None and not mine:
        env.check(r.kind not in ("ok", "empty", "big", "hb"), "C14:unanswered", "request %d (%s) was never answered "
                  "(connection %s)", r.rid, r.kind, "closed" if closed is not None else "open")
        if r.kind != "oneway":
            env.check(closed is not None, "C14:hangs", "failed request %d (%s) was neither answered nor its connection "
                      "closed", r.rid, r.kind)
    if r.plan is not None:
        ex = plans.of(r.plan)
        env.check(len(ex) <= 1, "C14:executions", "request %d was executed %d times", r.rid, len(ex))
        if r.kind in ("ok", "empty", "big", "raise", "raise2", "none", "str", "oneway", "exit") and arr is not None and must:
            env.check(len(ex) == 1, "C14:not-executed", "request %d (%s) was not executed", r.rid, r.kind)
        for e in ex:
            env.check(e.body == r.plan.body and e.iface == r.plan.iface and e.method == r.plan.method, "C14:wrong",
                      "request %d ran %s.%s with %s", r.rid, e.iface, e.method, short(e.body))


def c14_answers(env):
    setup(env)
    srv = Server(env, kind="sock")
    plans = srv.plans
    ch = env.ch
    plans.twins = ch.bool("twins", 0.12)
    if ch.bool("moody", 0.5):
        moody(env, srv)
    clients = []
    for i in range(ch.range("wl", 1, 8)):
        cl = RawClient(env, env.node("c%d" % (i % 3)), srv.node.ip)
        cl.add(good_request(env, plans, ch.pick("rid", [1, 0, 0x7fffffff, 77]), max_delay=400))
        clients.append(cl)
        g = gap(env, [0, 1, 40], [3, 2, 1])
        if g:
            env.sleep(g)
        if ch.bool("half", 0.2):
            env.k.fault("peer_half_close")
            cl.c.finish("shut") if not cl.queue else None
    if ch.bool("slowreader", 0.25):
        env.k.fault("slow_reader")
        clients[0].c.stop_reading()
        env.sleep(ch.pick("slowreader", [50, 500]))
        clients[0].c.resume()
    settle(env, plans, clients)
    for cl in clients:
        env.check(cl.c.connected, "C14:connect", "the server did not accept a connection")
        judge14(env, plans, cl, cl.reqs[0])
    for e in plans.execs:
        env.check(e.id is not None and e.body == plans.plans[e.id].body, "C14:body",
                  "a method was run with a body nobody sent: %s", short(e.body))


def c14_bad(env):
    """frames no server can accept cost their own connection only"""
    setup(env)
    srv = Server(env, kind="sock")
    plans = srv.plans
    ch = env.ch
    from .aioserver import bad_request
    clients = []
    for i in range(ch.range("wl", 2, 8)):
        cl = RawClient(env, env.node("c%d" % (i % 3)), srv.node.ip)
        if ch.bool("wl", 0.5):
            cl.add(bad_request(env, plans, 100))
        else:
            cl.add(good_request(env, plans, 100, max_delay=100))
        clients.append(cl)
        g = gap(env, [0, 1, 40], [3, 2, 1])
        if g:
            env.sleep(g)
    settle(env, plans, clients)
    for cl in clients:
        r = cl.reqs[0]
        if r.kind in ("bad", "badoneway"):
            frames, rest = cl.replies()
            env.check(not rest and len(frames) <= 1, "C14:bad-garbage", "a bad frame was answered with %d replies and "
                      "%d stray bytes", len(frames), len(rest))
            for f in frames:
                env.check(f.rid == r.rid and f.status != 0, "C14:bad-accepted", "a bad frame was answered with %r", f)
            if r.kind == "bad":
                env.check(frames or cl.server_closed_at() is not None, "C14:bad-hangs", "a bad frame was neither "
                          "answered nor its connection closed")
        else:
            judge14(env, plans, cl, r)
    for e in plans.execs:
        p = plans.plans.get(e.id)
        env.check(p is not None and not (p.info and "trap" in p.info), "C14:exec-bad", "part of a bad frame was executed")
    for cl in clients:
        cl.c.close()
    env.sleep(3000)
    left = env.net.open_ends(srv.node)
    env.check(not left, "C14:sockets", "%d server-side sockets are still open although their peers are gone", len(left))


def c14_peers(env):
    setup(env)
    srv = Server(env, kind="sock")
    plans = srv.plans
    ch = env.ch
    env.sleep(20)
    base = len(server_threads(env, srv.node))
    good = []
    hog = hogs(env, plans, srv.node.ip)
    for i in range(ch.range("wl", 1, 6)):
        misbehave(env, plans, env.node("bad%d" % (i % 3)), srv.node.ip, i)
        if ch.bool("emfile", 0.15):
            srv.node.emfile = ch.range("emfile", 1, 3)
        starve(env, srv, plans, good, "C14")
        cl = RawClient(env, env.node("good%d" % (i % 2)), srv.node.ip)
        cl.add(good_request(env, plans, 50 + i, timeouts=False, max_delay=50))
        good.append(cl)
        g = gap(env, [0, 1, 30, 500], [3, 2, 1, 1])
        if g:
            env.sleep(g)
        if ch.bool("newgood", 0.3) and not cl.slow and cl.reqs[0].kind in ("ok", "empty", "hb"):
            ok = env.until(lambda: len(cl.replies()[0]) >= 1, 30000, 50)
            env.check(cl.c.connected, "C14:accept", "a new connection was not accepted while other peers misbehave")
            env.check(ok, "C14:serve", "a new connection was not served while other peers misbehave")
    env.sleep(4000)
    settle(env, plans, good)
    last = RawClient(env, env.node("last"), srv.node.ip)
    last.add(good_request(env, plans, 8, timeouts=False, max_delay=5))
    good.append(last)
    settle(env, plans, [last])
    for cl in good:
        env.check(cl.c.connected, "C14:accept-after", "a connection was not accepted")
        judge14(env, plans, cl, cl.reqs[0])
        cl.c.close()
    for cl in hog:
        cl.c.close()
    env.sleep(3000)
    env.gc()
    left = env.net.open_ends(srv.node)
    env.check(not left, "C14:sockets", "%d server-side sockets are still open although their peers are gone: %s",
              len(left), [(e.state, e.raddr) for e in left[:3]])
    ts = server_threads(env, srv.node)
    env.check(len(ts) <= base, "C14:threads", "%d server threads are left although all peers are gone: %s",
              len(ts) - base, [t.name for t in ts][:5])


def c14_shutdown(env):
    setup(env)
    srv = Server(env, kind="sock")
    plans = srv.plans
    ch = env.ch
    probe = RawClient(env, env.node("probe"), srv.node.ip, slow=False)
    probe.add(Req(1, bolt.heartbeat(1), "hb"))
    if not env.until(lambda: probe.replies()[0], 20000, 1):
        env.fail("C14:serve", "a running server did not answer a heartbeat")
    old = [RawClient(env, env.node("c%d" % i), srv.node.ip) for i in range(ch.range("wl", 0, 3))]
    for cl in old:
        cl.add(good_request(env, plans, 1))
    g = gap(env, [0, 1, 20, 300])
    if g:
        env.sleep(g)
    j = env.go(srv.lsn.shutdown, node=srv.node, name="shutdown")
    ok = env.wait(j, 30000)
    env.check(ok, "C14:shutdown-hangs", "shutdown of a running server did not return within 30 s")
    env.check(j.exc is None, "C14:shutdown-raises", "shutdown of a running server raised %r", j.exc)
    new = []
    for i in range(ch.range("wl", 1, 3)):
        cl = RawClient(env, env.node("n%d" % i), srv.node.ip)
        p = plans.new()
        p.result = b"served"
        cl.add(Req(1, bolt.rpc(1, IFACE, "echo", p.body), "ok", p))
        new.append(cl)
        if ch.bool("gap", 0.5):
            env.sleep(ch.pick("gap", [1, 100, 2000]))
    env.sleep(3000)
    settle(env, plans, old)
    for cl in new:
        env.check(not cl.replies()[0], "C14:served-after-shutdown", "a connection made after shutdown was served")
        env.check(not plans.of(cl.reqs[0].plan), "C14:run-after-shutdown", "a request on a connection made after "
                  "shutdown was executed")
    for cl in old:
        # a request accepted before the shutdown is answered or its connection never served, nothing else
        judge14(env, plans, cl, cl.reqs[0], must=False)


# ------------------------------------------------------------------------------------ C24 (threaded server)
def c24_threads(env):
    """each connection of the threaded server is served within its own method's running time"""
    setup(env, net=False, stalls=False)
    fast_net(env)
    srv = Server(env, kind="sock")
    plans = srv.plans
    ch = env.ch
    clients = []
    for j in range(ch.range("wl", 2, 14)):
        cl = RawClient(env, env.node("c%d" % (j % 3)), srv.node.ip, chunky=False)
        clients.append(cl)
        idle = ch.pick("idle", ["", "silent", "part"], [6, 1, 1])
        if idle:
            env.k.fault("peer_" + idle)
            if idle == "part":
                cl.write(bolt.rpc(1, IFACE, "echo", b"x" * 50)[:ch.range("cutat", 1, 60)])
            continue
        if ch.bool("hb", 0.2):
            cl.add(Req(j + 1, bolt.heartbeat(j + 1), "hb"))
        else:
            p = plans.new(size=ch.pick("size", [0, 100, 5000]), kind=ch.pick("kind", ["ok", "raise", "none"], [8, 1, 1]),
                          delay=ch.pick("delay", [0, 1, 100, 1000, 20000], [5, 2, 2, 2, 2]))
            p.result = b"R%d" % p.id
            how = ch.pick("form", ["ok", "oneway", "nomethod"], [8, 1, 1])
            cl.add(Req(j + 1, bolt.rpc(j + 1, ch.pick("iface", [IFACE, IFACE2]),
                                       "nosuchmethod" if how == "nomethod" else "echo", p.body, -1,
                                       bolt.ONEWAY if how == "oneway" else bolt.REQUEST), how, p))
        g = gap(env, [0, 1, 60, 900], [5, 2, 1, 1])
        if g:
            env.sleep(g)
    settle(env, plans, clients)
    for cl in clients:
        for r in cl.reqs:
            arr = cl.arrival(r)
            own = 0 if r.kind in ("hb", "nomethod") else r.plan.delay * MS
            frames, _ = cl.replies()
            for f in frames:
                env.check(f.t - arr <= own + env.eps, "C24:thread-delay", "%s %d to the threaded server took %.1f ms, its "
                          "own running time is %d ms", "heartbeat" if r.kind == "hb" else "request", r.rid,
                          (f.t - arr) / 1e6, own // MS)
            if not frames and (r.kind == "hb" or r.kind == "ok" and r.plan.kind == "ok"):
                env.fail("C24:thread-unanswered", "request %d to the threaded server was never answered", r.rid)
            if r.kind in ("ok", "oneway"):
                for e in plans.of(r.plan):
                    env.check(e.t0 - arr <= env.eps, "C24:thread-start", "request %d was started %.1f ms after it arrived",
                              r.rid, (e.t0 - arr) / 1e6)


# ------------------------------------------------------------------------------------ C08 (servers)
def c08_server(env):
    setup(env, net=False)
    fast_net(env)
    ch = env.ch
    kind = ch.pick("srvkind", ["aio", "sock"])
    srv = Server(env, kind=kind)
    plans = srv.plans
    clients = []
    hbs = []

    def request(cl, rid):
        p = plans.new(size=ch.pick("size", [0, 100, 30000]), delay=ch.pick("delay", [0, 50, 3000, 40000]),
                      kind=ch.pick("out", ["ok", "raise", "none"]))
        p.result = b"R%d" % p.id
        return cl.add(Req(rid, bolt.rpc(rid, IFACE, "echo", p.body), "ok", p))
    for i in range(ch.range("wl", 1, 5)):
        clients.append(RawClient(env, env.node("c%d" % i), srv.node.ip, chunky=ch.bool("chunky", 0.3)))
        if kind == "aio":
            for j in range(ch.range("wl", 1, 5)):
                if ch.bool("hb", 0.5):
                    rid = ch.pick("rid", [0, 7, 0x7ffffff0, 0x12345678]) + j
                    hbs.append(clients[-1].add(Req(rid, bolt.heartbeat(rid), "hb")))
                else:
                    request(clients[-1], 1000 + j)
        elif ch.bool("hb", 0.6):
            rid = ch.pick("rid", [0, 7, 0x7fffffff, 0x12345678])
            hbs.append(clients[-1].add(Req(rid, bolt.heartbeat(rid), "hb")))
        else:
            request(clients[-1], 1000)
        g = gap(env, [0, 1, 40, 1000])
        if g:
            env.sleep(g)
    settle(env, plans, clients)
    for cl in clients:
        frames, rest = cl.replies()
        for r in cl.reqs:
            if r.kind != "hb":
                continue
            mine = [f for f in frames if f.rid == r.rid]
            env.check(len(mine) == 1, "C08:server-%s" % ("silent" if not mine else "duplicate"),
                      "heartbeat %d to the %s server was answered %d times", r.rid, kind, len(mine))
            f = mine[0]
            env.check(f.cmd == bolt.HEARTBEAT and f.ptype == bolt.RESPONSE and f.status == 0, "C08:server-reply",
                      "heartbeat %d to the %s server was answered with %r", r.rid, kind, f)
            env.check(f.t - cl.arrival(r) <= env.eps, "C08:server-late", "heartbeat %d to the %s server was answered "
                      "after %.1f ms", r.rid, kind, (f.t - cl.arrival(r)) / 1e6)
        env.check(not [f for f in frames if f.cmd == bolt.HEARTBEAT and f.rid not in [r.rid for r in cl.reqs
                                                                                   if r.kind == "hb"]],
                  "C08:server-unsolicited", "the server sent a heartbeat acknowledgement nobody asked for")
