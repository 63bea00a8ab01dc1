"""The asyncio client against scripted servers (C01, C03, C04, C05, C07, C08, C24)."""
import errno
import sys

from .client_common import *

KINDS = ["sync", "async", "cb"]


def result_for(env, p, big=True):
    ch = env.ch
    size = ch.pick("rsize", [5, 0, 300, 3000, 30000], [4, 2, 3, 2, 1 if big else 0])
    if size > env.net.cap * 40:
        size = env.net.cap * 40
    if not size and ch.bool("rsize", 0.3):
        return b""
    return lead(env) + b"R%d:" % p.id + pad(p.id + 3, size)


def two_way(env, cli, iface, timeout=None, kinds=KINDS, size=None):
    ch = env.ch
    if size is None:
        size = min(ch.pick("size", [10, 0, 300, 3000, 30000, 120000], [10, 2, 6, 4, 2, 1]), env.net.cap * 40)
    kind = ch.pick("kind", kinds)
    if timeout is None:
        timeout = ch.pick("T", [20000, 60000, 1500.5])
    c = cli.new(kind, iface, timeout, size=size, method=ch.pick("method", METHODS))
    c.plan.result = result_for(env, c.plan)
    return c


def spread(env, calls, nthreads, gaps=(0, 1, 30)):
    """distribute calls over threads and start them"""
    cli = calls[0].client if calls else None
    jobs = []
    for i in range(nthreads):
        mine = calls[i::nthreads]
        if mine:
            jobs.append(cli.go(mine, [env.ch.pick("gap", gaps) for _ in mine]))
    return jobs


def first_reply(peers, c, before=None):
    """the reply to this call that reached the client's host first: (time, Sent)"""
    best = None
    for p in peers:
        for s in p.sent.get(c.id, []):
            t = s.arrived()
            if t is not None and (best is None or t < best[0]):
                best = (t, s)
    return best


def carriers(env, cli, c):
    """connections on which the client wrote this call's request"""
    mark = b"#%d#" % c.id
    return [x for x in env.net.conns if x.a.node is cli.node and mark in bytes(x.ab.rec)]


def conn_known_end(x):
    ts = [t for t in (x.ba.fin_got_t, x.ba.err_t) if t is not None]
    return min(ts) if ts else None


# ------------------------------------------------------------------------------------ C01
def c01_match(env):
    setup(env)
    ch = env.ch
    cli = Cli(env, wrap=env.wrap_start())
    cli.plans.twins = ch.bool("twins", 0.12)
    bogus = [0]
    strays = []

    def extra(conn, f):
        """replies nobody asked for: for calls that are over, or for ids far from any in use"""
        done = [x for q in peers for cc, ff, x2 in q.got for x in [ff.rid]
                if x2 is not None and x2 in over]
        rid = ch.pick("bogus", done[-8:] + [(f.rid + 0x30000000) & 0x7fffffff])
        bogus[0] += 1
        env.k.fault("unsolicited_reply")
        conn_peer[conn].push(conn, bolt.response(rid, b"BOGUS%d" % bogus[0]))

    over = set()
    conn_peer = {}
    slow = ch.bool("slow", 0.1)     # patient callers of a slow server

    def decide(peer, conn, f, p):
        conn_peer[conn] = peer
        if p is None:
            return []
        out = []
        act = ch.pick("reply", ["ok", "dup", "late", "status", "dupstatus", "silent", "cut", "close", "rst", "shut",
                                "netreset"], [10, 2, 2, 1, 1, 1, .5, .3, .3, .2, .3])
        d = ch.pick("delay", [0, 1, 20, 300])
        if act in ("ok", "dup", "dupstatus"):
            out.append((d, "ok", None))
        if act == "dup":
            env.k.fault("duplicate_reply")
            out.append((d + ch.pick("delay", [0, 5, 200, 2000]), "ok", b"R%d:second" % p.id))
        elif act == "dupstatus":
            out.append((d + ch.pick("delay", [0, 5, 200]), "status", ch.pick("st", bolt.FAILURES)))
        elif act == "late":
            env.k.fault("late_reply")
            out.append((ch.pick("late", [20000, 40000, 100000] if slow else [120, 600, 1500, 3000]), "ok", None))
        elif act == "status":
            out.append((d, "status", ch.pick("st", bolt.FAILURES)))
            if ch.bool("st", 0.3):
                out.append((d + 5, "ok", None))
        elif act == "cut":
            out.append((d, "cut", (ch.int("cut", 80), ch.pick("cut", ["close", "rst"]))))
        elif act == "silent":
            env.k.fault("no_reply")
        elif act not in ("ok", "dup"):
            out.append((d, act, None))
        if ch.bool("bogus", 0.15):
            out.append((ch.pick("delay", [0, 30, 400]), "call", extra))
        return out
    peers = [Peer(env, "p%d" % i, cli.plans, decide) for i in range(ch.range("wl", 1, 2))]
    ifs = [IFACE, IFACE2][:len(peers)]
    for i, p in zip(ifs, peers):
        cli.bind(i, p.ip)
    for phase in range(ch.range("wl", 1, 2)):
        n = ch.range("wl", 1, 12)
        calls = [two_way(env, cli, ch.pick("iface", ifs),
                         ch.pick("T", [200000, 150000] if slow else [5000, 1000, 200, 60, 60.5])) for _ in range(n)]
        jobs = spread(env, calls, ch.range("wl", 1, 5))
        ok = env.wait(jobs, 3000000 if slow else 120000)
        env.check(ok, "C01:stuck", "a synchronous call did not return long after its timeout")
        if slow:
            env.sleep(110000)
        env.sleep(gap(env, [50, 3500]))
        over.update(c.plan for c in calls if c.ended is not None)
        if len(over) == len(cli.calls) and ch.bool("bogus", 0.4):
            # replies to ids the client is about to use, while nothing is going on
            last = max([f.rid for q in peers for _, f, _ in q.got] or [0])
            for q in peers:
                for conn in q.accepted:
                    if conn.alive and conn.end.state == "open":
                        for j in range(3):
                            env.k.fault("unsolicited_reply_next_id")
                            strays.append(q.push(conn, bolt.response((last + 1 + j) & 0x7fffffff, b"BOGUS next")))
            env.until(lambda: all(s.arrived() is not None or s.conn.end.state != "open" for s in strays), 60000, 20)
            env.sleep(400 + env.net.max_latency * 20 // MS)
    env.sleep(4000)
    env.gc()
    for c in cli.calls:
        cont = c.content
        sent = [s for q in peers for s in q.sent.get(c.id, [])]
        if cont is not None:
            okc = [s for s in sent if s.ok and s.content == cont]
            env.check(okc, "C01:foreign", "%s returned %s, its server sent %s", c, short(cont),
                      [short(s.content) for s in sent if s.ok])
            env.check(any(s.arrived() is not None and s.arrived() <= c.ended for s in okc), "C01:early",
                      "%s returned before its reply had arrived", c)
        for t, args in c.cbs:
            env.check(len(args) == 1 and any(s.ok and s.content == args[0] for s in sent), "C01:callback-foreign",
                      "the callback of %s got %s", c, short(args[0]) if args else "nothing")
        r = first_reply(peers, c)
        if r is None or r[1].status == "bad":
            continue
        cs = carriers(env, cli, c)
        if len(cs) != 1 or len([1 for q in peers for cc, f, p in q.got if p is c.plan]) != 1:
            continue
        end = conn_known_end(cs[0])
        t, s = r
        if end is not None and end <= t + env.eps:
            continue
        if c.kind == "sync" and t >= c.t0 + c.timeout * MS - env.eps:
            continue
        if s.ok:
            env.check(cont == s.content, "C01:lost", "the reply to %s arrived after %.1f ms, but the call ended with %r",
                      c, (t - c.t0) / 1e6, c.error if c.ended is not None else "nothing")
        else:
            env.check(cont is None, "C01:failed-content", "%s was answered with status %s but returned %s",
                      c, s.status, short(cont) if cont is not None else "")
    env.feature(calls=len(cli.calls), conns=env.net.nconn)


# ------------------------------------------------------------------------------------ C03
def c01_burst(env):
    """many calls outstanding on one connection, their replies all arriving together"""
    setup(env)
    env.net.cap = max(env.net.cap, 1 << 16)
    ch = env.ch
    cli = Cli(env)
    cli.plans.twins = ch.bool("twins", 0.12)
    held = []

    def decide(peer, conn, f, p):
        if p is not None:
            held.append((conn, f, p))
        return []
    peer = Peer(env, "p0", cli.plans, decide)
    cli.bind(IFACE, peer.ip)
    n = ch.pick("wl", [20, 60, 130, 300], [2, 3, 3, 1])
    nsync = ch.int("wl", 6)
    calls = [two_way(env, cli, IFACE, 60000, kinds=["sync"] if i < nsync else ["async", "cb"], size=10)
             for i in range(n)]
    for c in calls:
        c.plan.result = b"R%d" % c.plan.id
    jobs = (spread(env, calls[:nsync], nsync) if nsync else []) + spread(env, calls[nsync:], ch.range("wl", 1, 6), (0, 0, 0, 1))
    env.until(lambda: len(held) >= n, 20000, 5)
    env.check(len(held) == n, env.prop + ":unsent", "only %d of %d concurrent calls reached their server", len(held), n)
    while held:
        conn, f, p = held.pop(ch.int("order", len(held)))
        peer.push(conn, bolt.response(f.rid, p.result), p, 0, p.result, True)
    env.wait(jobs, 120000)
    env.until(lambda: all(c.ended is not None for c in calls), 30000, 20)
    for c in calls:
        env.check(c.content == c.plan.result, env.prop + ":lost", "%s was answered together with %d others, but ended with %r "
                  "/ %r", c, n - 1, c.content, c.error if c.ended is not None else "nothing")
        if c.kind == "cb":
            env.check(len(c.cbs) == 1 and c.cbs[0][1] == (c.plan.result,), env.prop + ":callback", "the callback of %s ran %d "
                      "times: %s", c, len(c.cbs), c.cbs)
    env.feature(calls=n)


def bad_server(env, plans, name, deadline_ms):
    """a server that makes calls take as long as it can"""
    ch = env.ch
    mode = ch.pick("srv", ["normal", "silent", "refuse", "noaccept", "stall", "noread", "drip", "cut", "close",
                           "lateok", "vanish", "blackhole"])

    def decide(peer, conn, f, p):
        if p is None:
            return []
        m = mode if mode != "mixed" else "silent"
        if m == "silent":
            return []
        if m == "drip":
            data = bolt.response(f.rid, p.result)
            step = max(1, len(data) // ch.range("drip", 2, 40))
            gap = ch.pick("drip", [5, 40, 300])
            env.k.fault("reply_drip")
            return [(i // step * gap, "raw", data[i:i + step]) for i in range(0, len(data), step)]
        if m == "cut":
            return [(ch.pick("delay", [0, 30]), "cut", (ch.int("cut", 90), ch.pick("cut", ["close", "rst", "shut"])))]
        if m == "close":
            return [(ch.pick("delay", [0, 30, 300]), ch.pick("cl", ["close", "rst", "shut", "netreset"]), None)]
        if m == "lateok":
            return [(deadline_ms + ch.pick("late", [-20, -1, 0, 1, 20, 900, 1000, 1100]), "ok", None)]
        return [(ch.pick("delay", [0, 1, 20]), "ok", None)]
    peer = Peer(env, name, plans, decide, backlog=2 if mode == "noaccept" else 100)
    env.k.fault("server_" + mode)
    if mode == "refuse":
        peer.srv.unlisten()
    elif mode == "noaccept":
        peer.srv.accepting = False
    elif mode == "noread":
        peer.srv.on_accept = lambda c: c.stop_reading()
    elif mode == "vanish":
        env.k.after(ch.pick("vanish", [0, 5, 40, 300]) * MS, env.net.crash_node, peer.node, True)
        peer.node.rst_when_down = False
    elif mode == "blackhole":
        peer.node.rst_when_down = False
        peer.node.alive = False
    peer.mode = mode
    return peer


def stall_links(env, cli, peer):
    """break the network between client and server for a while, at some moment"""
    ch = env.ch
    if peer.mode == "stall" or ch.bool("part", 0.15):
        at = ch.pick("part", [0, 1, 20, 200])
        dur = ch.pick("part", [300, 3000, 100000])
        env.k.fault("partition")
        env.k.after(at * MS, env.net.stall, cli.node, peer.node)
        env.k.after((at + dur) * MS, env.net.heal, cli.node, peer.node)


def wall_steps(env, node, horizon_ms):
    ch = env.ch
    for _ in range(ch.pick("clock", [0, 1, 3])):
        step = ch.pick("clock", [3600, -3600, 5, -5, 1, -2, 86400 * 365, -86400])
        env.k.fault("wall_clock_step")

        def jump(step=step):
            node.wall_offset += int(step * SEC)
        env.k.after(ch.int("clock", max(1, int(horizon_ms))) * MS, jump)


def c03_deadline(env, kind):
    setup(env, stalls=True)
    ch = env.ch
    cli = Cli(env, kind=kind)
    T = ch.pick("T", [300, 50, 1000, 3000, 10, 70.5, 1])
    peers = [bad_server(env, cli.plans, "p%d" % i, T) for i in range(ch.range("wl", 1, 2))]
    ifs = [IFACE, IFACE2][:len(peers)]
    for i, p in zip(ifs, peers):
        cli.bind(i, p.ip)
        stall_links(env, cli, p)
    wall_steps(env, cli.node, T + 500)
    calls = []
    for _ in range(ch.range("wl", 1, 6)):
        size = ch.pick("size", [10, 300, 3000, min(300000, env.net.cap * 30)])
        c = two_way(env, cli, ch.pick("iface", ifs), T, kinds=["sync"], size=size)
        calls.append(c)
    jobs = spread(env, calls, ch.range("wl", 1, 4))
    lim = T * MS + (SEC if kind != "aio" else 0)
    per = max(len(calls[i::1]) for i in range(1))
    ok = env.wait(jobs, (lim / MS + 2000) * per + 5000)
    for c in calls:
        if c.t0 is None:
            continue
        end = c.t1 if c.t1 is not None else env.k.now
        if end - c.t0 > lim + env.eps:
            env.fail("C03:late" + ("" if kind == "aio" else "-blocking"),
                     "%s with a timeout of %s ms %s after %.1f ms (servers: %s)", c, c.timeout,
                     "ended" if c.t1 is not None else "was still running", (end - c.t0) / 1e6,
                     [p.mode for p in peers])
        env.steps += 1
        if c.t1 is not None and c.exc is None:
            env.probe("returned")
        else:
            env.probe("raised")
    env.check(ok, "C03:stuck", "calls are still running long after their deadline")


def c03_aio(env):
    c03_deadline(env, "aio")


def c03_blocking(env):
    c03_deadline(env, "sock")


# ------------------------------------------------------------------------------------ C04
def c04_failures(env):
    """failure statuses, undecodable replies, connections ending at any byte"""
    setup(env)
    ch = env.ch
    cli = Cli(env)

    def decide(peer, conn, f, p):
        if p is None:
            return []
        act = ch.pick("reply", ["ok", "status", "badstatus", "badhdr", "cut", "close", "rst", "netreset", "silent"],
                      [3, 4, 1, 1, 2, 1, 1, 1, 1])
        d = ch.pick("delay", [0, 1, 20, 300])
        if act == "status":
            env.k.fault("failure_status")
            st = ch.pick("st", bolt.FAILURES)
            if ch.bool("st", 0.3):
                data = bolt.response(f.rid, b"some content", status=st)
            else:
                data = bolt.response(f.rid, b"", status=st)
            return [(d, "rawfail", data)]
        if act == "badstatus":
            env.k.fault("unknown_status")
            return [(d, "rawfail", bolt.response(f.rid, b"x", status=ch.pick("st", [0x13, 0x77, 300, 0x7fff])))]
        if act == "badhdr":
            env.k.fault("undecodable_failure")
            hdr = ch.pick("st", [b"\0\0", b"\xff\xff\xff\xf0", b"\0\0\0\2\xff\xfe\0\0\0\0", b"\0\0\0\x09ab"])
            return [(d, "rawfail", bolt.response(f.rid, b"x", headers=hdr, status=7))]
        if act == "cut":
            return [(d, "cut", (ch.int("cut", 100), ch.pick("cut", ["close", "rst"])))]
        if act == "ok":
            return [(d, "ok", None)]
        if act == "silent":
            return []
        return [(d, act, None)]
    peer = Peer(env, "p0", cli.plans, decide)
    cli.bind(IFACE, peer.ip)
    calls = [two_way(env, cli, IFACE, 30000) for _ in range(ch.range("wl", 1, 10))]
    jobs = spread(env, calls, ch.range("wl", 1, 4))
    env.wait(jobs, 12000)
    env.sleep(2000)
    down = ch.pick("down", ["", "crash", "stallcrash"])
    if down:
        if down == "stallcrash":
            peer.srv.accepting = False
        env.k.fault("server_crash")
        peer.srv.crash(rst=ch.bool("down", 0.5))
        env.sleep(1000)
    env.wait(jobs, 300000 * len(calls))
    env.sleep(1000)
    judge_prompt(env, cli, [peer], calls)


def judge_prompt(env, cli, peers, calls):
    for c in calls:
        if c.t0 is None:
            continue
        r = first_reply(peers, c)
        cs = carriers(env, cli, c)
        known = None
        why = None
        if r is not None and r[1].status not in (None, 0):
            known, why = r[0], "a failure status"
        elif r is None and cs and all(conn_known_end(x) is not None for x in cs):
            known, why = max(conn_known_end(x) for x in cs), "the end of its connection"
        if r is not None and r[1].ok and c.content is not None:
            env.steps += 1
            continue
        if known is None:
            if r is not None and r[1].ok:
                ends = [conn_known_end(x) for x in cs]
                if all(e is None or e > r[0] + env.eps for e in ends) and len(cs) == 1:
                    env.check(c.content is not None or (c.kind == "sync" and r[0] > c.t0 + c.timeout * MS - env.eps),
                              "C04:failed-ok", "%s was answered successfully but ended with %r", c, c.error)
            continue
        end = c.ended
        if c.kind == "sync" and known > c.t0 + c.timeout * MS - env.eps:
            continue
        env.check(c.content is None, "C04:result", "%s failed (%s) but ended with the result %s", c, why,
                  short(c.content) if c.content is not None else "")
        env.check(c.kind != "sync" or c.exc is not None or c.t1 is None, "C04:none",
                  "%s failed (%s) but returned None", c, why)
        env.check(end is not None and end <= known + env.eps, "C04:late",
                  "%s could know of its failure (%s) at %.1f ms, but %s", c, why, (known - c.t0) / 1e6,
                  "ended at %.1f ms" % ((end - c.t0) / 1e6) if end is not None else "never ended")
        env.check(c.error is not None, "C04:no-error", "%s failed (%s) without an exception", c, why)


def c04_refused(env):
    """nobody listens, or stops listening while calls keep coming"""
    setup(env)
    ch = env.ch
    cli = Cli(env)
    peer = Peer(env, "p0", cli.plans, lambda *a: [(0, "ok", None)])
    cli.bind(IFACE, peer.ip)
    if ch.bool("wl", 0.6):
        calls = [two_way(env, cli, IFACE, 30000) for _ in range(ch.range("wl", 1, 4))]
        env.wait(spread(env, calls, 2), 60000)
        for c in calls:
            env.check(env.until(lambda: c.ended is not None, 5000), "C04:no-reply", "%s never ended", c)
            env.check(c.content == c.plan.result, "C04:failed-ok", "%s was answered but ended with %r", c, c.error)
    slam = ch.bool("slam", 0.3)
    if slam:
        # it still accepts connections, but all of them are reset before anything was received
        env.k.fault("server_slams")
        peer.srv.on_accept = lambda c: setattr(c.end.conn, "slam", True)
        for c in peer.accepted:
            c.reset()
    else:
        peer.srv.crash(rst=ch.bool("wl", 0.5))
    why = "reset at every attempt" if slam else "refused by the server's host"
    iface = IFACE
    bad = "" if slam else ch.pick("dial", ["", "unreachable", "emfile", "noname"], [6, 1, 1, 1])
    if bad == "unreachable":
        why = "without a route to the server"
        env.k.fault("no_route")
        env.net.link(cli.node, peer.srv.node).refuse = ch.pick("dial", [errno.EHOSTUNREACH, errno.ENETUNREACH, errno.ETIMEDOUT])
    elif bad == "emfile":
        why = "without a descriptor for a connection"
        cli.node.emfile = 1 << 30
    elif bad == "noname":
        why = "addressed to a name nobody knows"
        env.k.fault("no_such_host")
        iface = IFACE2
        cli.bind(iface, "p0.nowhere.example")
    env.sleep(ch.pick("gap", [200, 0, 5]) + 0)
    down = env.k.now + env.net.max_latency * 3
    env.sleep(env.net.max_latency * 3 / MS)
    late = [two_way(env, cli, iface, 30000) for _ in range(ch.range("wl", 1, 6))]
    ow = [cli.new("oneway", iface) for _ in range(ch.int("wl", 3))]
    jobs = spread(env, late + ow, ch.range("wl", 1, 4))
    env.wait(jobs, 200000)
    env.sleep(1000)
    for c in late:
        env.check(c.content is None and c.result is None, "C04:result", "%s could not be sent but ended with %r",
                  c, c.content)
        end = c.ended
        # (calls which find no connection try to make one, one after another)
        lim = c.t0 + env.net.max_latency * (10 + (12 if slam else 3) * len(late + ow)) + env.eps
        env.check(end is not None and end <= lim, "C04:late", "%s was %s, but %s", c, why,
                  "ended after %.1f ms" % ((end - c.t0) / 1e6) if end is not None else "never ended")
        env.check(c.error is not None, "C04:no-error", "%s could not be sent, but ended without an exception", c)
        env.check(not c.cbs, "C04:callback", "the callback of %s ran although it could not be sent", c)


def c04_pressed(env):
    """calls which are held up by a peer that stopped reading, when that peer goes away for good"""
    setup(env)
    ch = env.ch
    cli = Cli(env)
    stop = [False]

    def decide(p, conn, f, x):
        if x is None:
            return []
        if stop[0] and ch.bool("stop", 0.5):
            return [(0, "stop", None)]
        return [(ch.pick("delay", [0, 5]), "ok", None)]
    peer = Peer(env, "p0", cli.plans, decide)
    cli.bind(IFACE, peer.ip)

    def make(n, sizes, kinds=KINDS):
        return [two_way(env, cli, IFACE, 30000, kinds=kinds, size=ch.pick("size", sizes)) for _ in range(n)]
    first = make(ch.range("wl", 1, 3), [10, 300])
    env.wait(spread(env, first, 2), 60000)
    for c in first:
        env.check(env.until(lambda: c.ended is not None, 5000), "C04:no-reply", "%s never ended", c)
    env.sleep(50)
    if ch.bool("stop", 0.7):
        env.k.fault("peer_stops_reading")
        for conn in peer.accepted:
            conn.stop_reading()
    stop[0] = True
    held = make(ch.range("wl", 1, 8), [10, 3000, 70000, 150000], ["async", "cb", "sync"])
    ow = [cli.new("oneway", IFACE, size=ch.pick("size", [10, 70000])) for _ in range(ch.int("wl", 3))]
    jobs = spread(env, held + ow, ch.range("wl", 1, 6), (0, 1, 30))
    env.sleep(ch.pick("gap", [0, 5, 300, 3000]))
    end = ch.pick("end", ["crash", "crashrst", "netreset"])
    env.k.fault("server_" + end)
    peer.srv.accepting = False
    if end == "netreset":
        peer.srv.unlisten()
        for x in list(env.net.conns):
            if x.a.node is cli.node:
                env.net.reset(x)
    peer.srv.crash(rst=end != "crash")
    t_down = env.k.now
    late = make(ch.int("wl", 4), [10, 70000])
    jobs += spread(env, late, 2, (0, 1, 30))
    env.wait(jobs, 300000)
    env.sleep(500 + 40 * env.net.max_latency / MS)
    for c in held + late:
        r = first_reply([peer], c)
        if r is not None and c.content is not None:
            continue
        env.check(c.content is None and c.result is None, "C04:result", "%s could not be sent but ended with %r",
                  c, c.content)
        # (calls which find no connection try to make one, one after another)
        lim = max(c.t0, t_down) + env.net.max_latency * (12 + 3 * len(held + ow + late)) + env.eps
        e = c.ended
        env.check(e is not None and e <= lim, "C04:late", "the server of %s went away (%s) at %.1f ms, but the call %s",
                  c, end, (t_down - c.t0) / 1e6,
                  "ended after %.1f ms" % ((e - c.t0) / 1e6) if e is not None else "never ended")
        env.check(c.error is not None, "C04:no-error", "%s lost its server, but ended without an exception", c)
        env.check(not c.cbs, "C04:callback", "the callback of %s ran although it lost its server", c)


def c04_crowd(env):
    """many calls outstanding on a connection which ends: every one of them ends with it"""
    setup(env)
    env.net.cap = max(env.net.cap, 1 << 16)
    ch = env.ch
    prop = env.prop
    cli = Cli(env)
    arrived = []

    def decide(peer, conn, f, p):
        if p is not None:
            arrived.append(p.id)
        return []
    peer = Peer(env, "p0", cli.plans, decide)
    cli.bind(IFACE, peer.ip)
    n = ch.pick("wl", [20, 70, 150, 300, 700], [2, 3, 3, 2, 1])
    nsync = ch.int("wl", 6)
    calls = [two_way(env, cli, IFACE, 60000, kinds=["sync"] if i < nsync else ["async", "cb"], size=10)
             for i in range(n)]
    jobs = (spread(env, calls[:nsync], nsync) if nsync else []) + spread(env, calls[nsync:], ch.range("wl", 1, 6), (0, 0, 0, 1))
    env.until(lambda: len(arrived) >= n, 20000, 5)
    env.check(len(arrived) == n, prop + ":unsent", "only %d of %d concurrent calls reached their server", len(arrived), n)
    end = ch.pick("end", ["crash", "crashrst", "close", "rst", "netreset"])
    env.k.fault("peer_" + end)
    if end.startswith("crash"):
        peer.srv.crash(rst=end == "crashrst")
    else:
        for conn in list(peer.accepted):
            if end == "close":
                conn.finish("close")
            elif end == "rst":
                conn.reset()
            elif conn.end.conn is not None:
                env.net.reset(conn.end.conn)
    t_down = env.k.now
    lim = t_down + 12 * env.net.max_latency + env.eps
    env.sleep((lim - env.k.now) / MS + 1)
    for c in calls:
        e = c.ended
        env.check(e is not None and e <= lim, prop + ":late", "the connection of %s and %d others ended (%s), but the call %s", c,
                  n - 1, end, "ended %.1f ms later" % ((e - t_down) / 1e6) if e is not None else "did not")
        env.check(c.error is not None and c.content is None, prop + ":no-error", "the connection of %s ended, but the call "
                  "ended with %r", c, c.content)
        env.check(not c.cbs, prop + ":callback", "the callback of %s ran although it lost its connection", c)
    env.wait(jobs, 60000)
    env.feature(calls=n, end=end)


def c04_encode(env):
    """calls that cannot be encoded, among others that can"""
    setup(env)
    ch = env.ch
    cli = Cli(env)
    peer = Peer(env, "p0", cli.plans, lambda p, c, f, x: [(ch.pick("delay", [0, 5, 100, 400]), "ok", None)] if x else [])
    cli.bind(IFACE, peer.ip)
    bad = []
    calls = []
    for _ in range(ch.range("wl", 2, 10)):
        c = two_way(env, cli, IFACE, 30000)
        calls.append(c)
        if ch.bool("bad", 0.35):
            env.k.fault("unencodable_call")
            c.info["bad"] = ch.pick("bad", ["str", "none", "hdr", "intlist"])
            bad.append(c)

    def run(cs):
        for c in cs:
            b = c.info.get("bad")
            if b == "str":
                cli.run(c, content="text")
            elif b == "none":
                cli.run(c, content=bytearray(b"x") if ch.bool("bad", 0.5) else 7)
            elif b == "intlist":
                cli.run(c, content=[1, 2])
            elif b == "hdr":
                cli.run(c, uid="u" * 70000)
            else:
                cli.run(c)
            if ch.bool("gap", 0.3):
                env.sleep(ch.pick("gap", [1, 30]))
    n = ch.range("wl", 1, 4)
    jobs = [env.go(run, calls[i::n], node=cli.node, name="caller") for i in range(n)]
    env.wait(jobs, 300000)
    env.until(lambda: cli.all_settled(), 20000, 50)
    for c in calls:
        if c in bad:
            env.check(c.content is None and c.result is None, "C04:result", "%s cannot be encoded but returned %r",
                      c, c.content)
            env.check(c.error is not None, "C04:no-error", "%s cannot be encoded (%s), but ended without an exception",
                      c, c.info["bad"])
            lim = c.t0 + env.eps + env.net.max_latency * 4
            if c.ended > lim:
                env.fail("C04:late", "%s cannot be encoded, but took %.1f ms to fail", c, (c.ended - c.t0) / 1e6)
        else:
            env.check(c.content == c.plan.result, "C04:disturbed", "%s ended with %r while another call could not be "
                      "encoded", c, c.error)
    env.check(env.net.nconn <= 1, "C04:reconnect", "the connection was replaced because a call could not be encoded")


# ------------------------------------------------------------------------------------ C05
def c05_async(env):
    setup(env)
    ch = env.ch
    cli = Cli(env)
    cli.plans.twins = ch.bool("twins", 0.12)
    slow = ch.bool("slow", 0.1)     # replies that take minutes
    pauses = ch.bool("pause", 0.2)

    def decide(peer, conn, f, p):
        if p is None:
            return []
        act = ch.pick("reply", ["ok", "dup", "status", "statusok", "close", "rst", "cut", "silent", "badstatus"],
                      [6, 2, 2, 1, .7, .7, .7, 1, .5])
        d = ch.pick("delay", [0, 1, 20, 300, 1200])
        if slow and ch.bool("slow", 0.4):
            d += ch.pick("slow", [8000, 35000, 110000])
            env.k.fault("late_reply")
        if pauses and ch.bool("pause", 0.4):
            # still answers, but reads nothing more for a while
            env.k.fault("peer_stops_reading")
            peer._act(conn, f, p, "stop", None)
            env.k.after(ch.pick("pause", [10, 400, 2500]) * MS, conn.resume)
        if act == "dup":
            env.k.fault("duplicate_reply")
            return [(d, "ok", None), (d + ch.pick("delay", [0, 1, 40]), "ok", None)]
        if act == "status":
            return [(d, "status", ch.pick("st", bolt.FAILURES))]
        if act == "statusok":
            return [(d, "status", ch.pick("st", bolt.FAILURES)), (d, "ok", None)]
        if act == "badstatus":
            return [(d, "rawfail", bolt.response(f.rid, b"x", status=0x55))]
        if act == "cut":
            return [(d, "cut", (ch.int("cut", 90), ch.pick("cut", ["close", "rst"])))]
        if act == "silent":
            return []
        return [(d, act, None)]
    peer = Peer(env, "p0", cli.plans, decide)
    cli.bind(IFACE, peer.ip)
    calls = []
    for _ in range(ch.range("wl", 1, 12)):
        c = two_way(env, cli, IFACE, ch.pick("T", [5000, 30000, 200, 0, None]), kinds=["cb", "cb", "async"],
                    size=ch.pick("size", [10, 10, 3000, 100000]) if pauses else None)
        if ch.bool("cbraise", 0.15):
            c.info["cb_raises"] = True
        if c.kind == "cb" and ch.bool("cbcalls", 0.12):
            # its callback makes another call
            c.info["cb_calls"] = cli.new(ch.pick("cbcalls", ["async", "cb", "oneway"]), IFACE, 5000, size=10)
            c.info["cb_calls"].plan.result = b"R%d" % c.info["cb_calls"].id
        if ch.bool("cancel", 0.12):
            c.info["cancel"] = ch.pick("cancel", [0, 1, 30, 400])
        calls.append(c)
    n = ch.range("wl", 1, 4)

    def run(cs):
        for c in cs:
            cli.run(c)
            if "cancel" in c.info and c.fut is not None:
                env.k.fault("caller_cancels")
                if c.info["cancel"]:
                    env.sleep(c.info["cancel"])
                c.info["cancelled"] = c.fut.cancel()
            g = ch.pick("gap", [0, 1, 40])
            if g:
                env.sleep(g)
    jobs = [env.go(run, calls[i::n], node=cli.node, name="caller") for i in range(n)]
    ok = env.wait(jobs, 60000)
    env.check(ok, "C05:blocked", "starting asynchronous calls blocked for a minute")
    env.sleep(ch.pick("slow", [130000, 3000]) if slow else 3000)
    end = ch.pick("down", ["", "crash", "rst", "netreset"])
    if end == "netreset":
        for x in list(env.net.conns):
            env.k.fault("net_reset")
            env.net.reset(x)
    elif end:
        env.k.fault("server_crash")
        peer.srv.crash(rst=end == "rst")
    env.sleep(2000)
    for c in [c.info["cb_calls"] for c in calls if "cb_calls" in c.info]:
        if c.t0 is not None and c.kind != "oneway":
            env.probe("called_in_callback")
            calls.append(c)
    for c in calls:
        env.check(c.exc is None, "C05:raised", "starting %s raised %r", c, c.exc)
        env.check(c.settles <= 1, "C05:settled-twice", "the future of %s settled %d times", c, c.settles)
        env.check(len(c.cbs) <= 1, "C05:callback-twice", "the callback of %s ran %d times", c, len(c.cbs))
        cancelled = c.fut.cancelled()
        r = first_reply([peer], c)
        cs = carriers(env, cli, c)
        if c.kind == "cb":
            if c.content is not None:
                env.check(len(c.cbs) == 1, "C05:no-callback", "%s succeeded but its callback did not run", c)
                args = c.cbs[0][1]
                env.check(len(args) == 1 and args[0] == c.content, "C05:callback-content",
                          "the callback of %s got %s, the future has %s", c, short(args[0]), short(c.content))
            else:
                env.check(not c.cbs, "C05:callback-on-failure", "the callback of %s ran with %s, but the call %s", c,
                          c.cbs and short(c.cbs[0][1][0]), "failed: %r" % c.error if c.settles else "is not over")
        if c.content is not None:
            env.check(any(s.ok and s.content == c.content for s in peer.sent.get(c.id, [])), "C05:content",
                      "%s got %s which nobody sent for it", c, short(c.content))
        if cancelled:
            env.check(c.info.get("cancelled"), "C05:cancelled", "the future of %s is cancelled, but nobody asked", c)
            env.probe("cancelled")
            continue
        known = None
        if r is not None:
            known = r[0]
        elif cs and all(conn_known_end(x) is not None for x in cs):
            known = max(conn_known_end(x) for x in cs)
        if known is None:
            continue
        env.check(c.settles == 1, "C05:never", "%s never settled although %s", c,
                  "its reply arrived" if r is not None else "its connection was lost")
        env.check(c.settled_at <= max(known, c.t0) + env.eps, "C05:late", "%s settled %.1f ms late", c,
                  (c.settled_at - known) / 1e6)
        if r is not None and len(cs) == 1 and (conn_known_end(cs[0]) is None or conn_known_end(cs[0]) > r[0] + env.eps):
            if r[1].ok:
                env.check(c.content == r[1].content, "C05:lost", "%s was answered successfully but ended with %r",
                          c, c.error)
            else:
                env.check(c.error is not None, "C05:failure-lost", "%s was answered with a failure but has a result", c)


# ------------------------------------------------------------------------------------ C07
def sizes(env, cli):
    """how much the client remembers"""
    out = {}
    objs = [("client", vars(cli.client)), ("class", vars(cli.cls))]
    for name, m in list(cli.image.modules.items()):
        if name.startswith("anthunder.client") and m is not None:
            objs.append((name, vars(m)))
    seen = set()

    def walk(path, v, depth):
        if id(v) in seen or depth > 3:
            return
        if isinstance(v, (dict, list, set, frozenset)) or type(v).__name__ in ("deque", "OrderedDict", "defaultdict",
                                                                              "WeakSet", "WeakValueDictionary"):
            seen.add(id(v))
            try:
                out[path] = len(v)
            except Exception:
                return
            if isinstance(v, dict):
                for a, b in list(v.items()):
                    walk(path + "/*", b, depth + 1)
            elif isinstance(v, list):
                for b in v:
                    walk(path + "/*", b, depth + 1)
    for name, d in objs:
        for a, v in list(d.items()):
            if a.startswith("__") or a in ("_mesh_client", "_loop", "loop_thread"):
                continue
            walk(name + "." + a, v, 0)
    return out


def packages(env, cli):
    """live request and response objects of that process"""
    import gc
    kinds = (cli.image["anthunder.protocol"].BoltRequest, cli.image["anthunder.protocol"].BoltResponse)
    import asyncio as aio
    n = {"packages": 0, "events": 0, "futures": 0}
    for o in gc.get_objects():
        if isinstance(o, kinds):
            n["packages"] += 1
        elif type(o) is aio.Event:
            n["events"] += 1
    return n


def forget(calls):
    for c in calls:
        c.fut = c.exc = c.result = None
        c.cbs = []
        c.plan = None


def c07_residue(env):
    setup(env)
    ch = env.ch
    cli = Cli(env)
    calm = [False]

    def decide(peer, conn, f, p):
        if p is None:
            return []
        if calm[0]:
            return [(0, "ok", None)]
        act = ch.pick("reply", ["ok", "dup", "status", "late", "silent", "close", "rst", "cut", "shut", "badstatus",
                                "unsolicited", "stop"], [5, 1, 2, 2, 1, .5, .5, .5, .3, .5, .5, .3])
        d = ch.pick("delay", [0, 1, 20, 300])
        if act == "dup":
            return [(d, "ok", None), (d + 3, "ok", None)]
        if act == "late":
            env.k.fault("late_reply")
            return [(ch.pick("late", [100, 1000, 3000]), "ok", None)]
        if act == "status":
            return [(d, "status", ch.pick("st", bolt.FAILURES))]
        if act == "badstatus":
            return [(d, "rawfail", bolt.response(f.rid, b"x", status=0x55))]
        if act == "cut":
            return [(d, "cut", (ch.int("cut", 90), ch.pick("cut", ["close", "rst"])))]
        if act == "unsolicited":
            return [(d, "ok", None), (0, "raw", bolt.response((f.rid + 12345) & 0x7fffffff, b"BOGUS"))]
        if act == "silent":
            return []
        return [(d, act, None)]
    np = ch.range("wl", 1, 2)
    peers = [Peer(env, "p%d" % i, cli.plans, decide) for i in range(np)]
    ifs = [IFACE, IFACE2][:np]
    for i, p in zip(ifs, peers):
        cli.bind(i, p.ip)

    def probe_calls(name):
        calm[0] = True
        for i in ifs:
            for attempt in range(4):
                c = cli.new("sync", i, 5000, size=10)
                c.plan.result = b"ok"
                j = cli.go([c])
                env.wait(j, 30000)
                if c.exc is None:
                    break
            env.check(c.exc is None, "C07:recover", "the client did not recover (%s): %r", name, c.exc)
    probe_calls("start")
    env.sleep(200)
    env.gc()
    base = sizes(env, cli), len(env.tasks(cli.node)), env.timers(cli.node)
    forget(cli.calls)
    calm[0] = False
    if ch.bool("wl", 0.3):
        # connections are replaced while many callers want one
        for p in peers:
            p.srv.crash(rst=True)
            p.srv.listen()
    hung = []
    storm = []
    for rnd in range(ch.range("wl", 1, 2)):
        if rnd:
            env.sleep(gap(env, [0]))
        calls = [two_way(env, cli, ch.pick("iface", ifs), ch.pick("T", [2000, 300, 40, 5]),
                         kinds=["sync", "sync", "async", "cb"]) for _ in range(ch.range("wl", 1, 12))]
        for c in calls:
            if ch.bool("oneway", 0.2):
                c.kind = "oneway"
        storm += calls
        jobs = spread(env, calls, ch.range("wl", 1, 6), gaps=(0, 0, 1, 30))
        f = ch.pick("fault", ["", "crash", "refuse", "partition", "netreset", "slam"])
        if f:
            env.sleep(ch.pick("fault", [0, 1, 10, 100]))
            p = peers[ch.int("fault", np)]
            env.k.fault("storm_" + f)
            if f == "crash":
                p.srv.crash(rst=ch.bool("fault", 0.5))
                env.sleep(ch.pick("fault", [0, 5, 500]))
                p.srv.listen()
            elif f == "refuse":
                p.srv.unlisten()
                env.sleep(ch.pick("fault", [5, 500]))
                p.srv.listen()
            elif f == "partition":
                env.net.stall(cli.node, p.node)
                env.sleep(ch.pick("fault", [5, 500, 4000]))
                env.net.heal(cli.node, p.node)
            elif f == "netreset":
                for x in list(env.net.conns):
                    env.net.reset(x)
            elif f == "slam":
                env.net.link(cli.node, p.node).slam = ch.pick("fault", [100, 50])
                if ch.bool("fault", 0.6):
                    for x in list(env.net.conns):
                        env.net.reset(x)
                env.sleep(ch.pick("fault", [5, 500, 4000]))
                env.net.heal_all()
        env.wait(jobs, 200000)
    # faults stop; asynchronous calls without an answer are given up by their caller
    for p in peers:
        p.calm = True
        for conn in p.accepted:
            conn.resume()
    env.sleep(4000)
    for c in storm:
        if c.fut is not None and not c.fut.done():
            c.fut.cancel()
            env.probe("async_given_up")
    env.sleep(3000)
    probe_calls("end")
    env.sleep(3000)
    for c in storm:
        env.check(c.ended is not None or c.fut is not None or c.t0 is None, "C07:stuck", "%s never ended", c)
    forget(cli.calls)
    del storm[:], calls[:], c, jobs
    for x in list(env.k.threads):
        pass
    for p in peers:
        # (before any garbage collection, which an idle process never gets to)
        open_ = cli.conns(p.ip)
        env.check(len(open_) <= 1, "C07:connections", "%d connections to one address are left open", len(open_))
    env.gc()
    after = sizes(env, cli), len(env.tasks(cli.node)), env.timers(cli.node)
    for path, n in after[0].items():
        b = base[0].get(path)
        env.check(b is None and n == 0 or b is not None and n <= b, "C07:residue",
                  "%s holds %d entries after all calls are over, it held %s before they began", path, n, b)
    env.check(after[1] <= base[1], "C07:tasks", "%d tasks are left after all calls are over, there were %d before: %s",
              after[1], base[1], [t.get_coro().__name__ for t in env.tasks(cli.node)])
    env.check(after[2] <= base[2], "C07:timers", "%d timers are left after all calls are over, there were %d before",
              after[2], base[2])
    left = packages(env, cli)
    # every receiver may still hold the last reply it read
    env.check(left["packages"] <= len(cli.conns()), "C07:packages", "%d request or response objects are still alive after all calls "
              "are over", left["packages"])
    env.check(not env.k.uncaught, "C07:thread-died", "a thread of the client died: %s",
              env.k.uncaught and env.k.uncaught[0][1][-300:])
    if ch.bool("many", 0.02):
        many_requests(env, cli)


def many_requests(env, cli):
    """a process which makes requests for a long time remembers none of them"""
    proto = cli.image["anthunder.protocol"]
    beat = cli.image["anthunder.command.heartbeat"].HeartbeatRequest
    header = env.on(cli.node, lambda: proto.SofaHeader(service="x"))

    def draw():
        for _ in range(1000):
            proto.BoltRequest.new_request(header, b"x", timeout_ms=100).to_stream()
            proto.BoltRequest.new_request(header, b"x", ptype=proto.constants.PTYPE.ONEWAY).to_stream()
            beat.new_request().to_stream()
    env.on(cli.node, draw)
    grown = []
    for _ in range(3):
        n = sys.getallocatedblocks()
        env.on(cli.node, draw)
        grown.append(sys.getallocatedblocks() - n)
    env.check(min(grown) < 800, "C07:memory", "making 3000 requests left %s more pieces of memory behind, again and again",
              grown)
    env.probe("made_many_requests")


def c07_heartbeats(env):
    """heartbeats which were lost, refused, failed or answered wrongly leave nothing behind either"""
    setup(env, stalls=False)
    env.net.base = min(env.net.base, 1000 * US)
    env.net.jitter = min(env.net.jitter, 500 * US)
    ch = env.ch
    faulty = [False]
    beats = []

    def decide(peer, conn, f, p):
        if f.cmd != bolt.HEARTBEAT:
            return []
        beats.append(env.k.now)
        if not faulty[0]:
            return [(ch.pick("delay", [0, 1, 200]), "hb", 0)]
        act = ch.pick("hb", ["silent", "fail", "wrongid", "dup", "close", "rst", "late", "badheader", "ok"])
        env.k.fault("heartbeat_" + act)
        if act == "fail":
            return [(0, "hb", ch.pick("st", bolt.FAILURES))]
        if act == "wrongid":
            return [(0, "raw", bolt.heartbeat_ack((f.rid + 7) & 0x7fffffff, ch.pick("st", [0, 2])))]
        if act == "late":
            return [(ch.pick("late", [29000, 31000, 70000]), "hb", 0)]
        if act in ("close", "rst"):
            return [(ch.pick("delay", [0, 40]), act, None)]
        if act == "badheader":
            return [(0, "raw", bolt.response(f.rid, b"x", headers=b"\0", cmd=bolt.HEARTBEAT, cls=b""))]
        return [(0, "hb", 0)] * (1 if act == "ok" else 2) if act != "silent" else []
    node = env.node("cli")
    plans = Plans(env)
    peer = Peer(env, "cli", plans, decide, port=12220, node=node)
    cli = Cli(env, mesh={}, plans=plans, node=node)

    def calm():
        n = len(beats)
        env.until(lambda: len(beats) >= n + 2, 200000, 500)
        env.check(len(beats) >= n + 2, "C07:no-heartbeat", "no two heartbeats in 200 s without faults")
        env.sleep(5000)
        env.gc()
        return sizes(env, cli), len(env.tasks(node)), env.timers(node)
    base = calm()
    for _ in range(ch.range("hb", 1, 3)):
        kind = ch.pick("trouble", ["answers", "answers", "down", "refuse"])
        env.k.fault("sidecar_" + kind)
        if kind == "answers":
            faulty[0] = True
        elif kind == "down":
            peer.srv.crash(rst=ch.bool("trouble", 0.5))
        else:
            peer.srv.unlisten()
            for conn in peer.accepted:
                if conn.end.state == "open":
                    conn.reset()
        env.sleep(ch.pick("trouble", [35000, 100000, 300000, 900000]))
        faulty[0] = False
        if not peer.srv.up:
            peer.srv.listen()
    env.sleep(140000)
    after = calm()
    open_ = cli.conns(node.ip)
    env.check(len(open_) <= 1, "C07:connections", "%d connections to the sidecar are left open", len(open_))
    for path, n in after[0].items():
        b = base[0].get(path)
        env.check(b is None and n == 0 or b is not None and n <= b, "C07:residue",
                  "%s holds %d entries after the heartbeats are over, it held %s before the faults", path, n, b)
    env.check(after[1] <= base[1], "C07:tasks", "%d tasks are left after the heartbeats are over, there were %d before "
              "the faults", after[1], base[1])
    env.check(after[2] <= base[2], "C07:timers", "%d timers are left after the heartbeats are over, there were %d before "
              "the faults", after[2], base[2])


# ------------------------------------------------------------------------------------ C08 (client)
def c08_client(env):
    setup(env, stalls=False)
    env.net.base = min(env.net.base, 1000 * US)
    env.net.jitter = min(env.net.jitter, 500 * US)
    ch = env.ch
    faulty = [False]
    beats = []
    pending = {}
    mangled = set()     # connections that carried frames no client needs to put up with

    def decide(peer, conn, f, p):
        if f.cmd == bolt.HEARTBEAT:
            beats.append((env.k.now, f.rid, conn))
            if not faulty[0]:
                out = [(ch.pick("delay", [0, 1, 200]), "hb", 0)]
            else:
                act = ch.pick("hb", ["ok", "silent", "fail", "wrongid", "dup", "close", "rst", "late", "garbage",
                                     "asresp"])
                env.k.fault("heartbeat_" + act)
                out = []
                if act in ("garbage", "asresp", "wrongid"):
                    mangled.add(conn)
                if act in ("ok", "dup"):
                    out.append((0, "hb", 0))
                if act == "dup":
                    out.append((1, "hb", 0))
                elif act == "fail":
                    out.append((0, "hb", ch.pick("st", bolt.FAILURES)))
                elif act == "wrongid":
                    for rid in list(pending) + [(f.rid + 7) & 0x7fffffff]:
                        out.append((0, "raw", bolt.heartbeat_ack(rid, ch.pick("st", [0, 2]))))
                elif act == "late":
                    out.append((ch.pick("late", [10000, 29000, 31000, 45000, 70000]), "hb", 0))
                elif act in ("close", "rst"):
                    out.append((ch.pick("delay", [0, 40]), act, None))
                elif act == "garbage":
                    out.append((0, "raw", bolt.response(f.rid, b"x", headers=b"\0", cmd=bolt.HEARTBEAT, cls=b"")))
                elif act == "asresp":
                    out.append((0, "raw", bolt.response(f.rid, b"hello")))
            return out
        if p is None:
            return []
        d = ch.pick("delay", [0, 5, 1000, 20000, 50000])
        pending[f.rid] = p
        env.k.after(int(d * MS), pending.pop, f.rid, None)
        return [(d, "ok", None)]
    node = env.node("cli")
    plans = Plans(env)
    peer = Peer(env, "cli", plans, decide, port=12220, node=node)
    start_down = ch.bool("hb", 0.2)
    cli = Cli(env, mesh={}, plans=plans, node=node)
    other = Peer(env, "p1", plans, lambda q, conn, f, p: [(ch.pick("delay", [0, 5, 300]), "ok", None)] if p else [])
    cli.bind(IFACE2, other.ip)      # IFACE stays unbound: through the sidecar
    t0 = env.k.now
    if start_down:
        env.k.fault("sidecar_down")
        peer.srv.unlisten()
    spans = []        # (start, end) of trouble
    calls = []
    if start_down:
        spans.append([t0, None])
    total = ch.range("hb", 8, 16)
    wall_steps(env, node, 300000)
    endless = ch.range("endless", 1, total) if ch.bool("endless", 0.08) else None
    for step in range(total):
        if ch.bool("trouble", 0.3) or step == endless and not (spans and spans[-1][1] is None):
            kind = ch.pick("trouble", ["answers", "down", "reset", "refuse"])
            if spans and spans[-1][1] is None:
                if not peer.srv.up:
                    peer.srv.listen()
                faulty[0] = False
                spans[-1][1] = env.k.now
            else:
                spans.append([env.k.now, None])
                env.k.fault("sidecar_" + kind)
                if kind == "answers":
                    faulty[0] = True
                elif kind == "down":
                    peer.srv.crash(rst=ch.bool("trouble", 0.5))
                elif kind == "refuse":
                    peer.srv.unlisten()
                else:
                    faulty[0] = True
                    for conn in peer.accepted:
                        if conn.end.state == "open":
                            conn.reset()
        if step == endless and spans and spans[-1][1] is None:
            # more heartbeats in a row go wrong than any counter should remember
            env.k.fault("long_trouble")
            env.sleep(ch.pick("endless", [700000, 1500000, 4000000]))
        n = ch.pick("wl", [0, 1, 3])
        if n:
            cs = [two_way(env, cli, ch.pick("iface", [IFACE2, IFACE]), 100000, size=10) for _ in range(n)]
            calls += cs
            spread(env, cs, n)
        env.sleep(ch.pick("gap", [30000, 5000, 29500, 60000]))
    if spans and spans[-1][1] is None:
        if not peer.srv.up:
            peer.srv.listen()
        faulty[0] = False
        spans[-1][1] = env.k.now
    env.sleep(130000)
    tend = env.k.now
    env.feature(beats=len(beats), trouble=len(spans))

    def troubled(a, b):
        return any(s - 35 * SEC <= b and a <= e + 35 * SEC for s, e in spans)
    # every attempt: a heartbeat seen by the sidecar, or a connection attempt to it
    att = sorted([(t, "beat") for t, _, _ in beats] +
                 [(t, "syn") for t, n, ip, port in env.net.syn_log if n == "cli" and port == 12220])
    marks = [t0] + [t for t, _ in att] + [tend]
    for a, b in zip(marks, marks[1:]):
        lim = 75 * SEC if troubled(a, b) else 40 * SEC
        env.check(b - a <= lim + env.eps, "C08:gap", "no heartbeat for %.1f s (between %.1f and %.1f s)",
                  (b - a) / 1e9, (a - t0) / 1e9, (b - t0) / 1e9)
    ts = [t for t, _, _ in beats]
    tail = spans[-1][1] if spans else t0
    env.check(len([t for t in ts if t >= tail]) >= 2, "C08:stopped", "only %d heartbeats in %.0f s after the last fault",
              len([t for t in ts if t >= tail]), (tend - tail) / 1e9)
    for a, b in zip(ts, ts[1:]):
        if not troubled(a, b):
            env.check(b - a >= 20 * SEC, "C08:flood", "two heartbeats within %.1f s", (b - a) / 1e9)
    ids = [r for _, r, _ in beats] + [f.rid for q in (peer, other) for _, f, p in q.got if p is not None]
    for c in calls:
        cs = carriers(env, cli, c)
        if len(cs) == 1 and c.ended is not None and c.content is None:
            x, t = cs[0], cs[0].ab.fin_t
            if t is not None and t < c.t0 + 99 * SEC and (conn_known_end(x) or t) >= t and c.ended >= t - env.eps:
                env.check(x in mangled, "C08:cut-off", "the client closed the connection of %s, which failed with %r", c,
                          c.error)
        r = first_reply([peer, other], c)
        if r is None:
            continue
        if len(cs) != 1 or (conn_known_end(cs[0]) is not None and conn_known_end(cs[0]) <= r[0] + env.eps):
            continue
        env.check(c.content == c.plan.result, "C08:disturbed", "%s was answered, but ended with %r / %r", c,
                  c.error, c.content)
        env.check(c.ended <= r[0] + env.eps, "C08:delayed", "%s ended %.1f ms after its reply", c,
                  (c.ended - r[0]) / 1e6)
    for c in calls:
        if c.content is not None:
            env.check(any(s.ok and s.content == c.content for q in (peer, other) for s in q.sent.get(c.id, [])),
                      "C08:completed", "%s was completed with %s which nobody sent for it", c, short(c.content))
        if c.client and c.iface == IFACE2 and c.ended is not None:
            env.check(c.content == c.plan.result, "C08:other-disturbed", "%s to another server ended with %r", c, c.error)


# ------------------------------------------------------------------------------------ C24 (client)
def c24_client(env):
    """a slow, stalled or failing server must not delay calls to responsive ones, nor calls each other"""
    setup(env, net=False, stalls=False)
    ch = env.ch
    env.net.cap = ch.pick("net", [262144, 16384, 4096])
    env.net.base = ch.pick("net", [50, 500]) * US
    env.net.jitter = ch.pick("net", [0, 300]) * US
    cli = Cli(env)
    mode = ch.pick("slow", ["slow", "silent", "noaccept", "stall", "noread", "refuse", "blackhole", "drip", "close"])

    def slow(peer, conn, f, p):
        if p is None or mode in ("silent", "noread"):
            return []
        if mode == "drip":
            data = bolt.response(f.rid, p.result)
            return [(i * 100, "raw", data[i:i + 1]) for i in range(len(data))]
        if mode == "close":
            return [(50, ch.pick("cl", ["close", "rst"]), None)]
        return [(ch.pick("delay", [500, 3000, 20000]), "ok", None)]
    beside = mode != "stall" and ch.bool("beside", 0.25)     # both servers on one host
    sp = Peer(env, "slow", cli.plans, slow, backlog=2, port=PORT + beside)
    delays = {}

    def quick(peer, conn, f, p):
        if p is None:
            return []
        return [(delays.get(p.id, 0), "ok", None)]
    qp = Peer(env, "quick", cli.plans, quick, node=sp.node if beside else None)
    same = mode in ("slow", "silent") and ch.bool("same", 0.4)
    if same:
        # one server, some of whose methods are slow
        laggards = set()

        def mixed(peer, conn, f, p):
            return (slow if p is not None and p.id in laggards else quick)(peer, conn, f, p)
        qp.decide = mixed
        env.probe("slow_and_quick_on_one_server")
    cli.bind(IFACE, *(qp.ip, PORT) if same else (sp.ip, sp.port))
    cli.bind(IFACE2, qp.ip)
    more = []          # further servers, each of which has a call to answer
    if ch.bool("more", 0.1):
        env.probe("many_servers")
        for i in range(ch.pick("more", [6, 12, 40, 80])):
            peer = Peer(env, "more%d" % i, cli.plans, quick)
            cli.bind("com.more%d:1.0" % i, peer.ip)
            c = two_way(env, cli, "com.more%d:1.0" % i, 30000, size=10, kinds=["async", "cb"])
            delays[c.id] = ch.pick("delay", [0, 400, 2000])
            more.append(c)
    env.k.fault("slow_server_" + mode)
    if mode == "noaccept":
        sp.srv.accepting = False
    elif mode == "stall":
        env.net.stall(cli.node, sp.node)
    elif mode == "noread":
        sp.srv.on_accept = lambda c: c.stop_reading()
    elif mode == "refuse":
        sp.srv.unlisten()
    elif mode == "blackhole" and beside:
        env.net.dead_ports.add((sp.node.name, sp.port))
    elif mode == "blackhole":
        sp.node.rst_when_down = False
        sp.node.alive = False
    jobs0 = spread(env, more, ch.range("more", 1, 3), gaps=(0, 0, 1)) if more else []
    slow_calls = []
    crowd = ch.bool("wl", 0.12)     # very many calls wait for an answer
    if crowd:
        env.probe("many_waiting")
    for _ in range(ch.pick("wl", [30, 80, 150, 400]) if crowd else ch.range("wl", 1, 8)):
        c = two_way(env, cli, IFACE, ch.pick("T", [30000, 3000, 500]),
                    size=10 if crowd else ch.pick("size", [10, 3000, 60000]),
                    kinds=["async", "cb"] if crowd else KINDS)
        if ch.bool("oneway", 0.2):
            c.kind = "oneway"
        if same:
            laggards.add(c.id)
        slow_calls.append(c)
    jobs = spread(env, slow_calls, ch.range("wl", 1, 6), gaps=(0, 0, 0, 1) if crowd else (0, 1, 100))
    g = ch.pick("gap", [0, 1, 200, 1000])
    if g:
        env.sleep(g)
    quick_calls = []
    for _ in range(ch.range("wl", 1, 8)):
        c = two_way(env, cli, IFACE2, 30000, size=ch.pick("size", [10, 300]))
        delays[c.id] = ch.pick("delay", [0, 0, 10, 400, 2000])
        quick_calls.append(c)
    jobs2 = spread(env, quick_calls, ch.range("wl", 1, 4), gaps=(0, 1, 100))
    env.wait(jobs0 + jobs2, 120000)
    quick_calls += more
    env.until(lambda: all(c.ended is not None for c in quick_calls), 40000, 10)
    for c in quick_calls:
        env.check(c.ended is not None, "C24:stuck", "%s to a responsive server never ended", c)
        took = c.ended - c.t0
        lim = delays[c.id] * MS + env.net.max_latency * 8 + env.eps
        env.check(took <= lim, "C24:client-delay", "%s to a responsive server took %.1f ms, its server took %d ms; "
                  "the other server is %s", c, took / 1e6, delays[c.id], mode)
        env.check(c.content == c.plan.result, "C24:client-failed", "%s to a responsive server ended with %r",
                  c, c.error)
    for c in slow_calls:
        if c.t0 is None:
            continue
        if c.kind != "sync":
            env.check(c.t1 is not None and c.t1 - c.t0 <= env.eps, "C24:start-blocks", "starting %s blocked its caller "
                      "for %.1f ms", c, ((c.t1 or env.k.now) - c.t0) / 1e6)
    if mode == "stall":
        env.net.heal_all()
