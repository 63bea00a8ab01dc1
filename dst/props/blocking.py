"""The blocking client against scripted servers (C22, and its part of C04)."""
from .client_common import *
from .aioclient import carriers, conn_known_end, spread, stall_links

GRACE = 1000    # ms the blocking client waits beyond a call's timeout


class Book:
    """what the scripted server did for each request, by connection"""

    def __init__(self):
        self.of = {}

    def note(self, p, conn, what, data, good):
        self.of.setdefault(p.id, []).append((conn, what, data, good))


def mangled(env, rid, p):
    """a reply no client may take for a success: (name, bytes, then)"""
    ch = env.ch
    good = bolt.response(rid, p.result)
    kind = ch.pick("mangle", ["cut", "content_len", "header_len", "class_len", "proto", "codec", "cmd", "header", "cut",
                              "version"])
    b = bytearray(good)
    if kind == "cut":
        return kind, good[:ch.int("mangle", len(good))]
    if kind == "content_len":
        import struct
        b[16:20] = struct.pack(">I", len(p.result) + ch.pick("mangle", [1, 255, 100000, 0x7fffffff]))
    elif kind == "header_len":
        b[14:16] = b"\xff\xff" if ch.bool("mangle", 0.5) else min(0xffff, len(p.result) + 40).to_bytes(2, "big")
        if len(p.result) > 0xff00:
            b[16:20] = b"\xff\xff\xff\xff"
    elif kind == "class_len":
        b[12:14] = b"\xff\xff"
        if len(p.result) > 0xff00:
            b[16:20] = b"\xff\xff\xff\xff"
    elif kind == "proto":
        b[0] = ch.pick("mangle", [0x55, 0xff, 99])
    elif kind == "codec":
        b[9] = ch.pick("mangle", [0x55, 0xff])
    elif kind == "cmd":
        b[2:4] = b"\x55\x55"
    elif kind == "version":
        b[4] = 0x66
    elif kind == "header":
        return kind, bolt.response(rid, p.result, headers=ch.pick("mangle", [b"\0\0\0\x09ab", b"\0\0\0\2\xff\xfe\0\0\0\0",
                                                                           b"\x7f\xff\xff\xff"]))
    return kind, bytes(b)


def responder(env, book, ids, timeout, acts=None):
    ch = env.ch
    wanted = acts or (["ok", "drip", "foreign", "status", "badstatus", "mangled", "late", "twice", "silent", "end"],
                      [5, 4, 3, 2, 1, 4, 1, 1, 1, 1])

    def decide(peer, conn, f, p):
        if p is None:
            return []
        ids.append(f.rid)
        act = ch.pick("reply", *wanted)
        d = ch.pick("delay", [0, 0, 1, 20, 200])
        good = reply_frame(env, f.rid, p.result)
        out = []
        tail = None

        def pieces(data, gap):
            step = max(1, len(data) // ch.range("drip", 1, 30))
            cuts = list(range(0, len(data), step))
            if ch.bool("drip", 0.5):
                n = ch.range("drip", 1, min(len(data), 40))
                cuts = list(range(0, n)) + list(range(n, len(data), max(1, len(data) // 10)))
            t = d
            for i, x in enumerate(cuts):
                out.append((t, "raw", data[x:cuts[i + 1] if i + 1 < len(cuts) else len(data)]))
                t += gap
            return t
        if act == "ok":
            book.note(p, conn, act, good, True)
            out.append((d, "raw", good))
            if ch.bool("reply", 0.3):
                tail = "close"
        elif act == "drip":
            env.k.fault("reply_drip")
            book.note(p, conn, act, good, True)
            pieces(good, ch.pick("drip", [0, 1, 7]))
        elif act == "twice":
            env.k.fault("reply_twice")
            book.note(p, conn, act, good, True)
            out += [(d, "raw", good + bolt.response(f.rid, b"second " + p.result)[:ch.range("drip", 1, 60)])]
        elif act == "late":
            env.k.fault("reply_late")
            book.note(p, conn, act, good, True)
            out.append((timeout + GRACE + ch.pick("late", [-1100, -50, -1, 0, 1, 50]), "raw", good))
        elif act == "foreign":
            env.k.fault("reply_foreign")
            others = [i for i in ids if i != f.rid]
            rid = ch.pick("rid", ["prev", "next", "other", "zero", "flip", "max"])
            rid = {"prev": (f.rid - 1) % (1 << 31), "next": (f.rid + 1) % (1 << 31),
                   "other": ch.pick("rid", others) if others else 7, "zero": 0, "max": 0x7fffffff,
                   "flip": f.rid ^ (1 << ch.int("rid", 31))}[rid]
            if rid == f.rid:
                rid ^= 1
            hdr = ch.pick("rid", [{}, {"k": "v"}, {"service": p.iface or "x", "": ""}], [4, 1, 1])
            data = bolt.response(rid, ch.pick("rid", [p.result, b"", b"not yours"]), headers=hdr)
            if ch.bool("rid", 0.3):
                data += good
            book.note(p, conn, act, data, False)
            if ch.bool("rid", 0.5):
                out.append((d, "raw", data))
            else:
                pieces(data, 1)
        elif act in ("status", "badstatus"):
            env.k.fault("failure_status")
            st = ch.pick("st", bolt.FAILURES) if act == "status" else ch.pick("st", [0x13, 0x77, 300, 0x7fff, -1])
            data = bolt.response(f.rid, ch.pick("st", [p.result, b""]), status=st)
            book.note(p, conn, act, data, False)
            if ch.bool("st", 0.5):
                out.append((d, "raw", data))
            else:
                pieces(data, 1)
        elif act == "mangled":
            kind, data = mangled(env, f.rid, p)
            env.k.fault("reply_" + kind)
            book.note(p, conn, kind, data, False)
            out.append((d, "raw", data))
            tail = ch.pick("mangle", ["close", "shut", "rst", None]) if kind in ("cut", "content_len", "header_len",
                                                                                "class_len") else None
        elif act == "end":
            book.note(p, conn, act, b"", False)
            tail = ch.pick("mangle", ["close", "shut", "rst", "netreset"])
        if tail:
            t = max([x[0] for x in out] or [d])
            out.append((t + ch.pick("tail", [0, 1, 30]), tail, None))
        return out
    return decide


def on_carrier(env, cli, c, book):
    """the reply script which ran on the connection carrying the call, with the bytes that got there"""
    return [(conn.end.conn, what, data, good) for conn, what, data, good in book.of.get(c.id, ())]


def c22_replies(env):
    setup(env)
    ch = env.ch
    cli = Cli(env, kind="sock", wrap=env.wrap_start(0.3))
    cli.plans.twins = ch.bool("twins", 0.12)
    book, ids = Book(), []
    T = ch.pick("T", [3000, 300, 50, 1, 10.5])
    peers = [Peer(env, "p%d" % i, cli.plans, responder(env, book, ids, T)) for i in range(ch.range("wl", 1, 2))]
    ifs = [IFACE, IFACE2][:len(peers)]
    for i, p in zip(ifs, peers):
        p.mode = "normal"
        cli.bind(i, p.ip)
    if ch.bool("faulty", 0.2):
        stall_links(env, cli, ch.pick("faulty", peers))
    calls = []
    for _ in range(ch.range("wl", 1, 10)):
        c = cli.new("sync", ch.pick("iface", ifs), T, size=min(ch.pick("size", [10, 0, 300, 3000, 30000]),
                                                            env.net.cap * 30))
        rs = min(ch.pick("rsize", [20, 0, 300, 3000, 60000, 200000], [5, 1, 3, 3, 1, .5]), env.net.cap * 30)
        c.plan.result = (lead(env) + b"R%d:" % c.id + pad(c.id + 3, rs)) if rs else b""
        calls.append(c)
    jobs = spread(env, calls, ch.range("wl", 1, 5), (0, 0, 1, 30))
    ok = env.wait(jobs, (T + 4000) * len(calls) + 5000)
    env.check(ok, "C22:stuck", "a call did not end")
    for c in calls:
        lim = c.t0 + (T + GRACE) * MS
        script = on_carrier(env, cli, c, book)
        good = [(x, d) for x, _, d, g in script if g and x is not None]
        if c.exc is None:
            env.check(type(c.result) is bytes, "C22:type", "%s returned %r", c, type(c.result))
            mine = [x for x, d in good if x.ba.got_at(len(d)) is not None and x.ba.got_at(len(d)) <= c.t1]
            env.check(mine, "C22:not-own", "%s returned %s, but its own reply (%s) was no success which had arrived", c,
                      short(c.result), [w for _, w, _, _ in script])
            env.check(c.result == c.plan.result, "C22:content", "%s returned %s, its reply said %s", c, short(c.result),
                      short(c.plan.result))
            env.probe("returned")
        else:
            env.probe("raised")
            if len(script) == 1 and good:
                x, d = good[0]
                t = x.ba.got_at(len(d))
                err = x.ba.err_t
                if t is not None and t < lim - env.eps and (err is None or err > t + env.eps):
                    env.fail("C22:raised", "%s got its own successful reply after %.1f ms, but raised %r after %.1f ms", c,
                             (t - c.t0) / 1e6, c.exc, (c.t1 - c.t0) / 1e6)


def c04_blocking(env):
    """the blocking client reports failures as soon as it can know of them"""
    setup(env)
    ch = env.ch
    cli = Cli(env, kind="sock")
    book, ids = Book(), []
    T = 30000
    peer = Peer(env, "p0", cli.plans, responder(env, book, ids, T, (
        ["ok", "drip", "foreign", "status", "badstatus", "mangled", "end"], [3, 1, 2, 4, 1, 3, 3])))
    cli.bind(IFACE, peer.ip)
    down = ch.pick("down", ["", "", "refuse", "crash"])
    if down == "refuse":
        peer.srv.unlisten()
    calls = [cli.new("sync", IFACE, T, size=ch.pick("size", [10, 0, 300, min(30000, env.net.cap * 20)]))
             for _ in range(ch.range("wl", 1, 8))]
    for c in calls:
        c.plan.result = b"R%d" % c.id
    jobs = spread(env, calls, ch.range("wl", 1, 4), (0, 0, 1, 30))
    if down == "crash":
        env.k.after(ch.pick("down", [0, 1, 20, 200]) * MS, peer.srv.crash, ch.bool("down", 0.5))
    env.wait(jobs, 40000 * len(calls))
    for c in calls:
        if c.t0 is None:
            continue
        cs = carriers(env, cli, c)
        script = on_carrier(env, cli, c, book)
        known = why = None
        if down == "refuse" and not cs:
            known, why = c.t0 + env.net.max_latency * 4, "its connection was refused"
        elif len(cs) == 1:
            x = cs[0]
            end = conn_known_end(x)
            if end is not None:
                known, why = end, "the end of its connection"
            if len(script) == 1 and not script[0][3] and script[0][2] and script[0][1] in (
                    "status", "badstatus"):
                f, _ = bolt.frames("resp", script[0][2])
                t = x.ba.got_at(f[0].end) if f else None
                if t is not None and (known is None or t < known):
                    known, why = t, "its reply (%s)" % script[0][1]
            if len(script) == 1 and script[0][3]:
                t = x.ba.got_at(len(script[0][2]))
                if t is not None and (known is None or t <= known):
                    continue        # it was answered
        if known is None:
            continue
        env.check(c.result is None, "C04:result", "%s failed (%s) but returned %s", c, why,
                  short(c.result) if c.result is not None else "")
        env.check(c.t1 is not None and c.t1 <= max(known, c.t0) + env.eps, "C04:late-blocking", "%s could know of its "
                  "failure (%s) after %.1f ms, but %s", c, why, (known - c.t0) / 1e6,
                  "ended after %.1f ms" % ((c.t1 - c.t0) / 1e6) if c.t1 is not None else "did not end")
        env.check(c.exc is not None, "C04:none", "%s failed (%s) but returned None", c, why)
        env.probe("reported_" + why.split()[-1])
