"""Simulated TCP network: sockets, selectors, name resolution, link faults.

TCP semantics as an application sees them: connected byte streams that are
reliable and ordered but arbitrarily segmented, delayed, stalled, short-read,
short-written, back-pressured, refused, timed out, half-closed or reset.
"""
import errno
import io
import math
import os
import socket as _socket
import select as _select_mod
import selectors
import sys

from . import kernel as _k
from .kernel import US, MS, SEC, HarnessError

_real_socket_cls = _socket.socket

AF_INET = _socket.AF_INET
AF_INET6 = _socket.AF_INET6
AF_UNIX = _socket.AF_UNIX
SOCK_STREAM = _socket.SOCK_STREAM
SHUT_RD, SHUT_WR, SHUT_RDWR = _socket.SHUT_RD, _socket.SHUT_WR, _socket.SHUT_RDWR

FD_BASE = 1000


class Pipe:
    """one direction of a connection"""
    __slots__ = ("conn", "src", "dst", "outstanding", "last_t", "held", "sent", "delivered", "closed",
                 "cut", "rec", "rec_t", "got_t", "fin_t", "fin_got_t", "err_t")

    def __init__(self, conn, src, dst):
        self.conn = conn
        self.src = src
        self.dst = dst
        self.outstanding = 0
        self.last_t = 0
        self.held = []
        self.sent = 0
        self.delivered = 0
        self.closed = False
        self.cut = None  # (offset, kind): fault when that many bytes were delivered
        self.rec = bytearray()   # everything sent into this direction
        self.rec_t = []          # (end offset, time) of each send
        self.got_t = []          # (end offset, time) of each delivery
        self.fin_t = None        # when the sender shut this direction down
        self.fin_got_t = None    # when the receiver learned of that
        self.err_t = None        # when the receiving end learned of a reset

    def sent_at(self, off):
        """time at which byte offset off (exclusive end) had been sent"""
        for o, t in self.rec_t:
            if o >= off:
                return t
        return None

    def got_at(self, off):
        for o, t in self.got_t:
            if o >= off:
                return t
        return None


class Conn:
    _n = 0

    def __init__(self, net, a, b, link):
        net.nconn += 1
        self.id = net.nconn
        self.net = net
        self.a = a
        self.b = b
        self.link = link
        self.ab = Pipe(self, a, b)
        self.ba = Pipe(self, b, a)
        self.cap = net.cap
        self.slam = False        # the first write of the connecting side finds the connection reset
        self.port = None
        self.t = net.k.now

    def pipe_from(self, end):
        return self.ab if end is self.a else self.ba

    def pipe_to(self, end):
        return self.ba if end is self.a else self.ab

    def ended_at(self):
        """earliest time at which either direction ended or either side learned of a reset"""
        ts = [t for p in (self.ab, self.ba) for t in (p.fin_t, p.fin_got_t, p.err_t) if t is not None]
        return min(ts) if ts else None


class End:
    """a socket's kernel side"""
    __slots__ = ("net", "node", "state", "rx", "eof", "err", "conn", "wr_shut", "rd_shut", "refs", "sels",
                 "laddr", "raddr", "queue", "backlog", "fd", "tap", "role", "opened", "ever_open",
                 "epoch", "syn", "family", "told")

    def __init__(self, net, node):
        self.net = net
        self.node = node
        self.state = "new"
        self.rx = bytearray()
        self.eof = False
        self.told = False       # the end of the stream has been read
        self.err = 0
        self.conn = None
        self.wr_shut = False
        self.rd_shut = False
        self.sels = []
        self.laddr = ("0.0.0.0", 0)
        self.raddr = None
        self.queue = None
        self.backlog = 0
        self.fd = -1
        self.tap = None
        self.role = None
        self.opened = None
        self.ever_open = False
        self.syn = 0
        self.epoch = node.epoch
        self.family = AF_INET

    # readiness as epoll would report it
    def readable(self):
        st = self.state
        if st == "listen":
            return bool(self.queue)
        if st == "connecting":
            return False
        return bool(self.rx) or self.eof or self.err != 0 or self.rd_shut or st in ("new", "dead")

    def writable(self):
        st = self.state
        if st in ("listen", "connecting"):
            return False
        if st in ("new", "dead") or self.err:
            return True
        if self.wr_shut:
            return True
        return self.space() >= self.net.wr_low(self.conn)

    def space(self):
        c = self.conn
        return max(0, c.cap - c.pipe_from(self).outstanding)

    def notify(self):
        for s in self.sels:
            s._poke()


class Link:
    __slots__ = ("base", "jitter", "stalled", "refuse", "slam", "conns", "syns")

    def __init__(self, base, jitter):
        self.base = base
        self.jitter = jitter
        self.stalled = False
        self.refuse = False
        self.slam = 0           # so many connections of 100 are accepted, but reset at their first byte
        self.syns = []


class Network:
    def __init__(self, k):
        self.k = k
        self.fds = {}
        self.free = []
        self.next_fd = FD_BASE
        self.listeners = {}
        self.links = {}
        self.conns = []
        self.nconn = 0
        self.next_port = 40000
        self.cap = 256 * 1024
        self.short_read = 0.0
        self.short_write = 0.0
        self.seg_p = 0.3
        self.base = 100 * US
        self.jitter = 50 * US
        self.syn_timeout = 127 * SEC
        self.bytes = 0
        self.taps = []
        self.on_connect = None
        self.on_socket = None
        self.dns = {}
        self.syn_count = 0
        self.dead_ports = set()
        self.syn_log = []       # (time, node name, ip, port) of every connection attempt

    def randomize(self, label="net", small=True):
        ch = self.k.ch
        self.cap = ch.pick(label, [262144, 65536, 16384, 4096] + ([1024, 200] if small else []))
        self.short_read = ch.pick(label, [0.0, 0.2, 0.7])
        self.short_write = ch.pick(label, [0.0, 0.2, 0.7])
        self.seg_p = ch.pick(label, [0.0, 0.3, 0.8])
        self.base = ch.pick(label, [100, 20, 1000, 20000]) * US
        self.jitter = ch.pick(label, [0, 50, 500, 5000]) * US
        return dict(cap=self.cap, sr=self.short_read, sw=self.short_write, seg=self.seg_p,
                    lat_us=self.base // US, jit_us=self.jitter // US)

    def calm(self):
        pass

    @property
    def max_latency(self):
        return self.base + self.jitter

    def wr_low(self, conn):
        return max(1, conn.cap // 3)

    def link(self, a, b):
        key = (a.name, b.name) if a.name <= b.name else (b.name, a.name)
        l = self.links.get(key)
        if l is None:
            l = self.links[key] = Link(None, None)
        return l

    def latency(self, link):
        base = self.base if link.base is None else link.base
        jit = self.jitter if link.jitter is None else link.jitter
        if jit:
            return base + self.k.ch.int("lat", max(1, jit // US)) * US
        return base

    # ---- fds
    def new_fd(self, sock):
        if self.free:
            self.free.sort()
            fd = self.free.pop(0)
        else:
            fd = self.next_fd
            self.next_fd += 1
        self.fds[fd] = sock
        return fd

    def drop_fd(self, fd):
        if fd in self.fds:
            del self.fds[fd]
            self.free.append(fd)

    def ephemeral(self):
        self.next_port += 1
        return self.next_port

    # ---- addresses
    def resolve_ip(self, node, host):
        if host in ("localhost", "127.0.0.1", ""):
            return "127.0.0.1"
        return self.dns.get(host, host)

    def find_listener(self, node, ip, port):
        """returns (target node, listening End or None)"""
        if ip.startswith("127."):
            tgt = node
        else:
            tgt = self.k.node_by_ip(ip)
            if tgt is None:
                return None, None
        l = self.listeners.get((tgt.name, port))
        if l is not None and (l.state != "listen" or not tgt.alive):
            l = None
        return tgt, l

    # ---- connection establishment
    def syn(self, end, ip, port, nth=0):
        """client SYN leaves node"""
        k = self.k
        if end.state != "connecting":
            return
        if nth == 0:
            self.syn_log.append((k.now, end.node.name, ip, port))
        tgt, _ = self.find_listener(end.node, ip, port)
        if tgt is None:
            return  # black hole; times out
        if (tgt.name, port) in self.dead_ports:
            return  # a firewall drops it
        link = self.link(end.node, tgt)
        if link.stalled or not tgt.alive:
            if not tgt.alive and not link.stalled and getattr(tgt, "rst_when_down", True):
                k.after(self.latency(link), self._refuse, end)
                return
            link.syns.append((end, ip, port))
            if not link.stalled:
                k.after(1 * SEC, self.syn, end, ip, port, nth + 1)
            return
        k.after(self.latency(link), self._syn_arrive, end, ip, port, nth)

    def _syn_arrive(self, end, ip, port, nth):
        if end.state != "connecting":
            return
        k = self.k
        tgt, l = self.find_listener(end.node, ip, port)
        link = self.link(end.node, tgt)
        if link.stalled:
            link.syns.append((end, ip, port))
            return
        if not tgt.alive and not getattr(tgt, "rst_when_down", True):
            k.after(1 * SEC, self.syn, end, ip, port, nth + 1)
            return
        if l is None or link.refuse:
            k.after(self.latency(link), self._refuse, end, errno.ECONNREFUSED if link.refuse in (True, False) else link.refuse)
            return
        if len(l.queue) > max(1, l.backlog):
            k.after(1 * SEC, self.syn, end, ip, port, nth + 1)
            return
        srv = End(self, l.node)
        conn = Conn(self, end, srv, link)
        conn.slam = link.slam > 0 and (link.slam >= 100 or k.ch.bool("slam", link.slam / 100))
        self.conns.append(conn)
        srv.state = "open"
        srv.ever_open = True
        srv.conn = conn
        srv.laddr = l.laddr
        srv.raddr = end.laddr
        srv.role = "accepted"
        conn.port = port
        end.conn = conn
        srv.opened = k.now
        l.queue.append(srv)
        k.ev("syn", conn.id, end.node.name, tgt.name, port)
        if self.on_connect is not None:
            self.on_connect(conn, port)
        l.notify()
        k.after(self.latency(link), self._established, end, conn)

    def _established(self, end, conn):
        if conn.link.stalled:
            conn.ab.held.append((self._established, (end, conn)))
            return
        if end.ever_open:
            return      # data of the server overtook this
        if end.state != "connecting":
            # client gave up meanwhile
            self._rst_to(conn.b)
            return
        end.state = "open"
        end.ever_open = True
        end.opened = self.k.now
        self.k.ev("estab", conn.id)
        end.notify()

    def _refuse(self, end, err=errno.ECONNREFUSED):
        if end.state == "connecting":
            end.state = "dead"
            end.err = err
            self.k.ev("refused", end.node.name, end.raddr and end.raddr[1])
            end.notify()

    def _syn_timeout(self, end):
        if end.state == "connecting":
            end.state = "dead"
            end.err = errno.ETIMEDOUT
            end.notify()

    # ---- data
    def send(self, end, data):
        k = self.k
        c = end.conn
        if c is not None and c.slam and end is c.a and end.state == "open":
            c.slam = False
            k.fault("reset_at_write", c.id)
            self.reset(c)
        if end.err:
            e, end.err = end.err, 0
            raise OSError(e, os.strerror(e))
        if end.state == "dead" or end.wr_shut:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if end.state in ("new", "listen"):
            raise OSError(errno.ENOTCONN, "not connected")
        if end.state == "connecting":
            raise BlockingIOError(errno.EAGAIN, "connecting")
        if not data:
            return 0
        room = end.space()
        if room <= 0:
            raise BlockingIOError(errno.EAGAIN, "send buffer full")
        n = min(len(data), room)
        ch = k.ch
        if n < len(data):
            k.faults["short_write"] = k.faults.get("short_write", 0) + 1
        elif n > 1 and self.short_write and ch.bool("sw", self.short_write):
            cut = ch.logint("sw", n - 1)  # 0: no cut
            if cut:
                n = n - cut
                k.faults["short_write"] = k.faults.get("short_write", 0) + 1
        chunk = bytes(data[:n])
        self.bytes += n
        pipe = end.conn.pipe_from(end)
        pipe.outstanding += n
        pipe.sent += n
        if end.conn.link is not None:
            pipe.rec += chunk
            pipe.rec_t.append((pipe.sent, k.now))
        if end.conn.link is None:  # local socketpair: immediate
            pipe.dst.rx += chunk
            pipe.dst.notify()
            return n
        pos = 0
        segs = 0
        while pos < n:
            m = n - pos
            if m > 1 and self.seg_p and segs < 4 and ch.bool("seg", self.seg_p):
                cut = ch.logint("seg", m - 1)
                if cut:
                    m = m - cut
            segs += 1
            self._enqueue(pipe, ("data", chunk[pos:pos + m]))
            pos += m
        if end.tap is not None:
            end.tap(chunk)
        k.ev("send", end.conn.id, "a" if end is end.conn.a else "b", n)
        return n

    def _enqueue(self, pipe, item):
        k = self.k
        t = max(k.now + self.latency(pipe.conn.link), pipe.last_t)
        pipe.last_t = t
        k.at(t, self._deliver, pipe, item)

    def _deliver(self, pipe, item):
        conn = pipe.conn
        if conn.link.stalled:
            pipe.held.append((self._deliver, (pipe, item)))
            return
        if pipe.held:
            pipe.held.append((self._deliver, (pipe, item)))
            return
        dst = pipe.dst
        kind = item[0]
        if pipe.closed and kind != "rst":
            return
        if not dst.node.alive or dst.epoch != dst.node.epoch:
            # host is gone: silence while down, RST once it is back
            if dst.node.alive or getattr(dst.node, "rst_when_down", True):
                self._rst_back(pipe)
            return
        if dst.state == "connecting" and dst is conn.a and kind != "rst":
            self._established(dst, conn)
        if kind == "data":
            data = item[1]
            pipe.delivered += len(data)
            if dst.state != "open" and not (dst.state == "connecting"):
                self._rst_back(pipe)
                return
            if dst.rd_shut:
                pipe.outstanding -= len(data)
                return
            dst.rx += data
            pipe.got_t.append((pipe.delivered, self.k.now))
            self.k.ev("rx", conn.id, "a" if dst is conn.a else "b", len(data))
            dst.notify()
            cut = pipe.cut
            if cut is not None and pipe.delivered >= cut[0]:
                pipe.cut = None
                self.k.fault("cut_" + cut[1], conn.id, pipe.delivered)
                if cut[1] == "reset":
                    self.reset(conn)
                elif cut[1] == "eof":
                    self._deliver_fin(pipe)
        elif kind == "fin":
            self._deliver_fin(pipe)
        elif kind == "rst":
            pipe.closed = True
            self._err(dst, errno.ECONNRESET)

    def _deliver_fin(self, pipe):
        pipe.closed = True
        dst = pipe.dst
        if pipe.fin_got_t is None:
            pipe.fin_got_t = self.k.now
        if dst.state == "open":
            dst.eof = True
            self.k.ev("fin", pipe.conn.id, "a" if dst is pipe.conn.a else "b")
            dst.notify()

    def _rst_back(self, pipe):
        """data hit a closed socket: reset the sender"""
        pipe.closed = True
        conn = pipe.conn
        back = conn.pipe_from(pipe.dst)
        back.closed = False
        t = max(self.k.now + self.latency(conn.link), back.last_t)
        self.k.at(t, self._rst_to_if, conn, pipe.src)

    def _rst_to_if(self, conn, end):
        if conn.link.stalled:
            conn.pipe_from(end).held.append((self._rst_to_if, (conn, end)))
            return
        self._err(end, errno.ECONNRESET)

    def _rst_to(self, end):
        self._err(end, errno.ECONNRESET)

    def _err(self, end, e):
        if end.state in ("open", "connecting"):
            end.state = "dead"
            end.err = e
            end.eof = True
            if end.conn is not None:
                end.conn.pipe_to(end).err_t = self.k.now
            self.k.ev("rst", end.conn.id if end.conn else 0, end.node.name)
            end.notify()

    def reset(self, conn):
        """network fault: both ends see a reset, bytes in flight are lost"""
        conn.ab.closed = conn.ba.closed = True
        for end in (conn.a, conn.b):
            e = self.k.ch.pick("reseterr", [errno.ECONNRESET, errno.ETIMEDOUT, errno.EHOSTUNREACH], [8, 1, 1])
            if e != errno.ECONNRESET:
                self.k.fault("reset_" + errno.errorcode[e].lower())
            self._err(end, e)

    def consumed(self, end, n):
        c = end.conn
        pipe = c.pipe_from(c.b if end is c.a else c.a)
        was = c.cap - pipe.outstanding
        pipe.outstanding -= n
        low = self.wr_low(c)
        if was < low <= c.cap - pipe.outstanding:
            pipe.src.notify()

    def shutdown_wr(self, end):
        if end.wr_shut or end.state != "open":
            return
        end.wr_shut = True
        pipe = end.conn.pipe_from(end)
        pipe.fin_t = self.k.now
        if end.conn.link is None:
            pipe.dst.eof = True
            pipe.dst.notify()
        else:
            self._enqueue(pipe, ("fin",))

    def close_end(self, end):
        st = end.state
        if st == "closed":
            return
        if st == "listen":
            end.state = "closed"
            key = (end.node.name, end.laddr[1])
            if self.listeners.get(key) is end:
                del self.listeners[key]
            for q in end.queue:
                self._abort_end(q)
            end.queue = []
            self.k.ev("unlisten", end.node.name, end.laddr[1])
            return
        if st == "open":
            pipe = end.conn.pipe_from(end)
            if end.conn.link is None:
                end.state = "closed"
                pipe.dst.eof = True
                pipe.dst.notify()
            elif end.rx:
                end.state = "closed"
                if pipe.fin_t is None:
                    pipe.fin_t = self.k.now
                self._enqueue(pipe, ("rst",))
            else:
                if not end.wr_shut:
                    self.shutdown_wr(end)
                end.state = "closed"
            self.k.ev("close", end.conn.id, "a" if end is end.conn.a else "b")
        end.state = "closed"

    def _abort_end(self, end):
        if end.state == "open":
            end.state = "closed"
            if end.conn.link is not None:
                pipe = end.conn.pipe_from(end)
                if pipe.fin_t is None:
                    pipe.fin_t = self.k.now
                self._enqueue(pipe, ("rst",))

    # ---- faults on links and nodes
    def stall(self, a, b):
        l = self.link(a, b)
        if not l.stalled:
            l.stalled = True
            self.k.fault("partition", a.name, b.name)

    def heal(self, a, b):
        l = self.link(a, b)
        if not l.stalled:
            return
        l.stalled = False
        self.k.ev("heal", a.name, b.name)
        syns, l.syns = l.syns, []
        for end, ip, port in syns:
            self.syn(end, ip, port, 1)
        for c in self.conns:
            if c.link is l:
                for p in (c.ab, c.ba):
                    held, p.held = p.held, []
                    for fn, args in held:
                        fn(*args)

    def heal_all(self):
        for (a, b), l in list(self.links.items()):
            l.refuse = False
            if l.slam:
                l.slam = 0
                for c in self.conns:
                    if c.link is l and c.slam:
                        c.slam = False
                        self.reset(c)
            if l.stalled:
                self.heal(self.k.nodes[a], self.k.nodes[b])

    def crash_node(self, node, silent):
        """the process (silent=False) or the host (silent=True) dies now"""
        k = self.k
        k.fault("crash_silent" if silent else "crash", node.name)
        node.alive = False
        node.rst_when_down = not silent
        k.kill_node_threads(node)
        from .sync import release_of_dead
        release_of_dead()
        for key, l in list(self.listeners.items()):
            if l.node is node:
                del self.listeners[key]
                for q in l.queue:
                    self._vanish(q, silent)
                l.state = "closed"
        for fd, s in list(self.fds.items()):
            e = s._end
            if e is not None and e.node is node and e.epoch == node.epoch:
                self._vanish(e, silent)
                del self.fds[fd]  # never reused: the number dies with the process
        node.epoch += 1

    def _vanish(self, e, silent):
        if e.state == "open" and e.conn.link is not None:
            if not silent:
                # the OS closes the dead process's sockets
                if e.rx:
                    self._enqueue(e.conn.pipe_from(e), ("rst",))
                elif not e.wr_shut:
                    self._enqueue(e.conn.pipe_from(e), ("fin",))
        e.state = "closed"

    def restart_node(self, node):
        node.alive = True
        self.k.ev("restart", node.name)
        # a peer with unacknowledged data retransmits it, and learns that nobody knows the connection any more
        for c in self.conns:
            for e in (c.a, c.b):
                if e.node is node and e.epoch != node.epoch and c.pipe_to(e).outstanding > 0:
                    self.k.after(1 * SEC, self._rst_back, c.pipe_to(e))

    def open_ends(self, node=None):
        out = []
        for s in self.fds.values():
            e = s._end
            if e is not None and (node is None or e.node is node) and e.conn is not None \
                    and e.conn.link is not None and e.state in ("open", "dead", "connecting"):
                out.append(e)
        return out


def _net():
    k = _k.K
    if k is None:
        raise RuntimeError("socket used outside a run")
    return k.net


class SimSocket:
    """drop-in for socket.socket"""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None, _end=None):
        self._closed = False
        self._io_refs = 0
        self._end = None
        self._fd = -1
        k = _k.K
        if k is None:
            raise RuntimeError("socket created outside a run")
        if family == -1:
            family = AF_INET
        if type == -1:
            type = SOCK_STREAM
        self.family = family
        self.type = type & ~(getattr(_socket, "SOCK_NONBLOCK", 0) | getattr(_socket, "SOCK_CLOEXEC", 0))
        self.proto = 0 if proto == -1 else proto
        self._timeout = _default_timeout
        net = k.net
        node = k.current.node
        if _end is None:
            k.yp()
            if node.emfile > 0:
                node.emfile -= 1
                k.fault("emfile", node.name)
                raise OSError(errno.EMFILE, "Too many open files")
            _end = End(net, node)
        self._end = _end
        self._net = net
        self._fd = net.new_fd(self)
        _end.fd = self._fd
        if net.on_socket is not None:
            net.on_socket(self)

    # ---- misc API
    def __enter__(self):
        return self

    def __exit__(self, *a):
        if not self._closed:
            self.close()

    def __repr__(self):
        return "<simsocket fd=%d>" % self._fd

    def __getstate__(self):
        raise TypeError("cannot pickle socket")

    def __del__(self):
        if not self._closed and self._end is not None:
            try:
                self._real_close()
            except Exception:
                pass

    def fileno(self):
        return self._fd

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def getblocking(self):
        return self._timeout != 0.0

    def settimeout(self, t):
        if t is not None:
            t = float(t)
            if t < 0:
                raise ValueError("Timeout value out of range")
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    @property
    def timeout(self):
        return self._timeout

    def setsockopt(self, *a):
        self._check()

    def getsockopt(self, level, opt, buflen=None):
        self._check()
        if level == _socket.SOL_SOCKET and opt == _socket.SO_ERROR:
            e, self._end.err = self._end.err, 0
            return e
        if level == _socket.SOL_SOCKET and opt == _socket.SO_TYPE:
            return self.type
        return 0

    def getsockname(self):
        self._check()
        return self._end.laddr

    def getpeername(self):
        self._check()
        if self._end.state not in ("open",):
            raise OSError(errno.ENOTCONN, "not connected")
        return self._end.raddr

    def get_inheritable(self):
        return False

    def set_inheritable(self, flag):
        pass

    def _check(self):
        if self._fd < 0 or self._end.state == "closed" and self._end.epoch == self._end.node.epoch:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def dup(self):
        raise HarnessError("socket.dup is not simulated")

    def detach(self):
        raise HarnessError("socket.detach is not simulated")

    # ---- makefile, as in socket.socket
    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        return _real_socket_cls.makefile(self, mode, buffering, encoding=encoding, errors=errors,
                                         newline=newline)

    def close(self):
        self._closed = True
        if self._io_refs <= 0:
            self._real_close()

    def _real_close(self):
        if self._fd < 0:
            return
        fd, self._fd = self._fd, -1
        k = _k.K
        net = self._net
        net.drop_fd(fd)
        if k is None:
            return
        net.close_end(self._end)
        # closing removes the descriptor from every epoll set
        for s in list(self._end.sels):
            s._forget(self._end)
        if not k.finished:
            k.yp(2)

    # ---- server side
    def bind(self, addr):
        self._check()
        k = _k.K
        host, port = addr[0], addr[1]
        if port == 0:
            port = self._net.ephemeral()
        self._end.laddr = (host or "0.0.0.0", port)

    def listen(self, backlog=128):
        self._check()
        e = self._end
        key = (e.node.name, e.laddr[1])
        if self._net.listeners.get(key) is e:
            e.backlog = backlog if backlog is not None else 128
            return
        if key in self._net.listeners:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        e.state = "listen"
        e.queue = []
        e.backlog = backlog if backlog is not None else 128
        self._net.listeners[key] = e
        _k.K.ev("listen", e.node.name, e.laddr[1])

    def accept(self):
        k = _k.K
        k.yp()
        self._check()
        e = self._end
        self._wait(lambda: e.queue or e.state != "listen", False)
        if e.state != "listen":
            raise OSError(errno.EBADF, "Bad file descriptor")
        if e.node.emfile > 0:
            e.node.emfile -= 1
            k.fault("emfile_accept", e.node.name)
            raise OSError(errno.EMFILE, "Too many open files")
        srv = e.queue.pop(0)
        k.progress()
        s = SimSocket(self.family, self.type, self.proto, _end=srv)
        return s, srv.raddr

    # ---- client side
    def connect(self, addr):
        k = _k.K
        k.yp()
        self._check()
        e = self._end
        if e.state == "open":
            raise OSError(errno.EISCONN, "already connected")
        if e.state == "connecting":
            raise OSError(errno.EALREADY, "already in progress")
        if e.err:
            x, e.err = e.err, 0
            raise OSError(x, os.strerror(x))
        if not isinstance(addr, tuple) or len(addr) < 2:
            raise TypeError("connect(): AF_INET address must be tuple")
        ip = self._net.resolve_ip(e.node, addr[0])
        if not isinstance(addr[1], int):
            raise TypeError("an integer is required (port)")
        e.state = "connecting"
        e.laddr = (e.node.ip, self._net.ephemeral())
        e.raddr = (ip, addr[1])
        e.role = "client"
        self._net.syn_count += 1
        k.after(self._net.syn_timeout, self._net._syn_timeout, e)
        self._net.syn(e, ip, addr[1])
        k.progress()
        if self._timeout == 0.0:
            raise BlockingIOError(errno.EINPROGRESS, "Operation now in progress")
        self._wait(lambda: e.state != "connecting", True)
        if e.err:
            x, e.err = e.err, 0
            raise OSError(x, os.strerror(x))

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or errno.ETIMEDOUT
        return 0

    # ---- data
    def _wait(self, pred, write):
        """block (per the socket's timeout) until pred()"""
        if pred():
            return
        if self._timeout == 0.0:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        k = _k.K
        deadline = None if self._timeout is None else k.now + int(self._timeout * SEC)
        w = _Waiter(k.current)
        e = self._end
        e.sels.append(w)
        try:
            while not pred():
                if deadline is not None and k.now >= deadline:
                    raise TimeoutError("timed out")
                k.block(deadline, "socket")
        finally:
            if w in e.sels:
                e.sels.remove(w)

    def _recv_ready(self):
        e = self._end
        return e.rx or e.eof or e.err or e.rd_shut or e.state in ("dead", "closed", "new")

    def _take(self, n, flags=0):
        if flags & _socket.MSG_DONTWAIT and self._timeout != 0.0:
            timeout, self._timeout = self._timeout, 0.0
            try:
                return self._take(n, flags)
            finally:
                self._timeout = timeout
        k = _k.K
        k.yp()
        self._check()
        e = self._end
        if e.state == "listen" or e.state == "new":
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        self._wait(self._recv_ready, False)
        if e.rx:
            if flags & _socket.MSG_PEEK:
                return bytes(e.rx[:n])
            m = min(n, len(e.rx))
            net = self._net
            if m > 1 and net.short_read and e.conn.link is not None and k.ch.bool("sr", net.short_read):
                cut = k.ch.logint("sr", m - 1)
                if cut:
                    m -= cut
                    k.faults["short_read"] = k.faults.get("short_read", 0) + 1
            data = bytes(e.rx[:m])
            del e.rx[:m]
            net.consumed(e, m)
            k.progress()
            return data
        if e.err:
            x, e.err = e.err, 0
            raise OSError(x, os.strerror(x))
        if e.told:
            k.unproductive()
        e.told = True
        return b""

    def recv(self, n, flags=0):
        data = self._take(n, flags)
        if flags & _socket.MSG_WAITALL and not flags & (_socket.MSG_PEEK | _socket.MSG_DONTWAIT) \
                and self._timeout is None:
            while data and len(data) < n:
                try:
                    more = self._take(n - len(data), flags)
                except OSError as x:
                    self._end.err = self._end.err or x.errno or 0
                    break
                if not more:
                    break
                data += more
        return data

    def recv_into(self, buf, nbytes=0, flags=0):
        mv = memoryview(buf).cast("B")
        data = self.recv(nbytes or len(mv), flags)
        mv[:len(data)] = data
        return len(data)

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), self._end.raddr

    def send(self, data, flags=0):
        if flags & _socket.MSG_DONTWAIT and self._timeout != 0.0:
            timeout, self._timeout = self._timeout, 0.0
            try:
                return self.send(data)
            finally:
                self._timeout = timeout
        k = _k.K
        k.yp()
        self._check()
        e = self._end
        mv = memoryview(data).cast("B")
        if self._timeout != 0.0:
            self._wait(lambda: e.state not in ("connecting",) and
                       (e.state != "open" or e.err or e.wr_shut or e.space() > 0), True)
        try:
            n = self._net.send(e, mv)
        except BlockingIOError:
            k.unproductive()
            raise
        if n:
            k.progress()
        return n

    def sendmsg(self, buffers, ancdata=(), flags=0, address=None):
        data = b"".join(bytes(b) for b in buffers)
        return self.send(data)

    def sendall(self, data, flags=0):
        mv = memoryview(data).cast("B")
        k = _k.K
        timeout = self._timeout
        deadline = None if not timeout else k.now + int(timeout * SEC)
        try:
            while mv:
                if deadline is not None:
                    self._timeout = max(1e-6, (deadline - k.now) / 1e9)
                n = self.send(mv)
                mv = mv[n:]
        finally:
            self._timeout = timeout

    def shutdown(self, how):
        k = _k.K
        k.yp()
        self._check()
        e = self._end
        if e.state not in ("open",):
            raise OSError(errno.ENOTCONN, "not connected")
        if how in (SHUT_WR, SHUT_RDWR):
            self._net.shutdown_wr(e)
        if how in (SHUT_RD, SHUT_RDWR):
            e.rd_shut = True
            e.notify()


class _Waiter:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _poke(self):
        _k.K.wake(self.t)

    def _forget(self, end):
        _k.K.wake(self.t)


_default_timeout = None


def sim_setdefaulttimeout(t):
    global _default_timeout
    _default_timeout = t


def sim_socketpair(family=None, type=SOCK_STREAM, proto=0):
    k = _k.K
    net = _net()
    node = k.current.node
    a, b = End(net, node), End(net, node)
    c = Conn(net, a, b, None)
    c.cap = 1 << 20
    for e in (a, b):
        e.state = "open"
        e.conn = c
        e.role = "pair"
    net.nconn -= 1
    return (SimSocket(AF_UNIX, type, proto, _end=a), SimSocket(AF_UNIX, type, proto, _end=b))


def sim_create_connection(address, timeout=_socket._GLOBAL_DEFAULT_TIMEOUT, source_address=None, *,
                          all_errors=False):
    host, port = address
    sock = SimSocket(AF_INET, SOCK_STREAM)
    try:
        if timeout is not _socket._GLOBAL_DEFAULT_TIMEOUT:
            sock.settimeout(timeout)
        sock.connect((host, port))
    except BaseException:
        sock.close()
        raise
    return sock


def sim_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    if isinstance(port, str):
        port = int(port)
    k = _k.K
    ip = k.net.dns.get(host) if k is not None else None
    if ip is None:
        if host in (None, ""):
            ip = "0.0.0.0" if flags & _socket.AI_PASSIVE else "127.0.0.1"
        elif host == "localhost":
            ip = "127.0.0.1"
        else:
            try:
                _socket.inet_pton(AF_INET, host)
                ip = host
            except OSError:
                raise _socket.gaierror(_socket.EAI_NONAME, "Name or service not known")
    return [(AF_INET, SOCK_STREAM, 6, "", (ip, port or 0))]


def sim_gethostbyname(name):
    k = _k.K
    node = k.current.node if k is not None else None
    if node is not None and name == node.name:
        if node.noname:
            k.fault("own_name_unresolvable")
            raise _socket.gaierror(_socket.EAI_NONAME, "Name or service not known")
        return node.ip
    return sim_getaddrinfo(name, 0)[0][4][0]


def sim_gethostname():
    k = _k.K
    return k.current.node.name if k is not None else "localhost"


class SimSelector(selectors._BaseSelectorImpl):
    """selectors.*Selector over simulated sockets"""

    def __init__(self):
        super().__init__()
        self._blocked = None
        self._ends = {}   # fd -> End at registration time
        self._closed_sel = False

    def _poke(self):
        t = self._blocked
        if t is not None:
            _k.K.wake(t)

    def _forget(self, end):
        if self in end.sels:
            end.sels.remove(self)

    def register(self, fileobj, events, data=None):
        key = super().register(fileobj, events, data)
        sock = _net().fds.get(key.fd)
        if sock is None:
            super().unregister(fileobj)
            raise OSError(errno.EBADF, "Bad file descriptor")
        end = sock._end
        self._ends[key.fd] = end
        end.sels.append(self)
        self._poke()
        return key

    def unregister(self, fileobj):
        key = super().unregister(fileobj)
        end = self._ends.pop(key.fd, None)
        if end is not None and self in end.sels:
            end.sels.remove(self)
        return key

    def modify(self, fileobj, events, data=None):
        key = super().modify(fileobj, events, data)
        return key

    def _ready(self):
        out = []
        for fd, key in list(self._fd_to_key.items()):
            end = self._ends.get(fd)
            if end is None or self not in end.sels:
                continue
            ev = 0
            if key.events & selectors.EVENT_READ and end.readable():
                ev |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and end.writable():
                ev |= selectors.EVENT_WRITE
            if ev:
                out.append((key, ev))
        return out

    def select(self, timeout=None):
        k = _k.K
        k.yp()
        deadline = None
        if timeout is not None:
            deadline = k.now + (int(math.ceil(timeout * 1e6)) * US if timeout > 0 else 0)
        while True:
            ready = self._ready()
            if ready:
                k.unproductive()
                if len(ready) > 1:
                    r = k.ch.int("ready", len(ready))
                    if r:
                        ready = ready[r:] + ready[:r]
                return ready
            if deadline is not None and k.now >= deadline:
                k.unproductive()
                return []
            self._blocked = k.current
            try:
                k.block(deadline, "select")
            finally:
                self._blocked = None

    def close(self):
        for end in self._ends.values():
            if self in end.sels:
                end.sels.remove(self)
        self._ends.clear()
        super().close()


def sim_select(r, w, x, timeout=None):
    sel = SimSelector()
    try:
        ev = {}
        for f in r:
            ev.setdefault(f, 0)
            ev[f] |= selectors.EVENT_READ
        for f in w:
            ev.setdefault(f, 0)
            ev[f] |= selectors.EVENT_WRITE
        for f, e in ev.items():
            if (f if isinstance(f, int) else f.fileno()) < 0:
                raise ValueError("file descriptor cannot be a negative integer (-1)")
            sel.register(f, e)
        ready = sel.select(timeout)
        rs = {key.fileobj for key, e in ready if e & selectors.EVENT_READ}
        ws = {key.fileobj for key, e in ready if e & selectors.EVENT_WRITE}
        return [f for f in r if f in rs], [f for f in w if f in ws], []
    finally:
        sel.close()


class SimPoll:
    def __init__(self):
        self._sel = SimSelector()
        self._rdhup = {}

    @staticmethod
    def _map(mask):
        e = 0
        if mask & (_select_mod.POLLIN | _select_mod.POLLPRI | _select_mod.POLLRDHUP):
            e |= selectors.EVENT_READ
        if mask & _select_mod.POLLOUT:
            e |= selectors.EVENT_WRITE
        return e

    def register(self, fd, eventmask=3):
        fd = fd if isinstance(fd, int) else fd.fileno()
        self._rdhup[fd] = eventmask & _select_mod.POLLRDHUP
        if fd in self._sel._fd_to_key:
            self._sel.modify(fd, self._map(eventmask) or selectors.EVENT_READ)
        else:
            self._sel.register(fd, self._map(eventmask) or selectors.EVENT_READ)

    def modify(self, fd, eventmask):
        self._sel.modify(fd, self._map(eventmask) or selectors.EVENT_READ)

    def unregister(self, fd):
        self._sel.unregister(fd)

    def poll(self, timeout=None):
        if timeout is not None:
            timeout = None if timeout < 0 else timeout / 1000.0
        out = []
        for key, ev in self._sel.select(timeout):
            m = 0
            if ev & selectors.EVENT_READ:
                m |= _select_mod.POLLIN
            if ev & selectors.EVENT_WRITE:
                m |= _select_mod.POLLOUT
            end = self._sel._ends.get(key.fd)
            if end is not None:
                if end.err or end.state == "dead":
                    m |= _select_mod.POLLERR | _select_mod.POLLHUP
                elif end.eof and end.wr_shut:
                    m |= _select_mod.POLLHUP
                if end.eof and self._rdhup.get(key.fd):
                    m |= _select_mod.POLLRDHUP
            out.append((key.fd, m))
        return out


class SimEpoll(SimPoll):
    """select.epoll, level-triggered; its event bits are those of poll"""

    def __init__(self, sizehint=-1, flags=0):
        super().__init__()
        self.closed = False

    def poll(self, timeout=None, maxevents=-1):
        if timeout is not None:
            timeout = timeout * 1000.0
        out = super().poll(timeout)
        return out[:maxevents] if maxevents > 0 else out

    def close(self):
        if not self.closed:
            self.closed = True
            self._sel.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install():
    import _socket as _c
    import socketserver
    _socket.socket = SimSocket
    _socket.SocketType = SimSocket
    _socket.socketpair = sim_socketpair
    _socket.create_connection = sim_create_connection
    _socket.getaddrinfo = sim_getaddrinfo
    _socket.gethostbyname = sim_gethostbyname
    _socket.gethostname = sim_gethostname
    _socket.setdefaulttimeout = sim_setdefaulttimeout
    _socket.getdefaulttimeout = lambda: _default_timeout
    for n in ("DefaultSelector", "EpollSelector", "PollSelector", "SelectSelector"):
        setattr(selectors, n, SimSelector)
    _select_mod.select = sim_select
    _select_mod.poll = SimPoll
    _select_mod.epoll = SimEpoll
    socketserver._ServerSelector = SimSelector
    import asyncio.selector_events  # noqa: refers to socket/selectors by attribute
    import asyncio.base_events as be
    be._ipaddr_info = be._ipaddr_info
