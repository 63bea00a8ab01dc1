"""Scripted peers: event-driven endpoints without threads of their own. They sit
directly on the simulated network, below the socket API, so that a scenario
controls every byte, delay, half-close and reset they produce."""
from . import bolt
from .kernel import MS, US
from .net import End


class ActorConn:
    def __init__(self, k, end, kind):
        self.k = k
        self.net = k.net
        self.end = end
        self.parser = bolt.Parser(kind)
        self.raw = bytearray()
        self.out = bytearray()
        self.reading = True
        self.connected = end.state == "open"
        self.failed = None
        self.eof = False
        self.err = 0
        self.close_after = None   # "close"/"shut" once the out buffer is empty
        self.frames = []
        self.pending = False
        self.data = {}
        self.on_frame = None
        self.on_open = None
        self.on_end = None
        self.ended = False
        self.opened_at = k.now
        end.sels.append(self)
        self._poke()

    # End notifications
    def _poke(self):
        if not self.pending:
            self.pending = True
            self.k.at(self.k.now, self._run)

    def _forget(self, end):
        pass

    def _run(self):
        self.pending = False
        e = self.end
        if e.state == "connecting":
            return
        if not self.connected:
            if e.state == "open":
                self.connected = True
                if self.on_open:
                    self.on_open(self)
            elif not self.ended:
                self.failed = e.err or True
                self._end()
                return
        if self.reading and e.rx:
            data = bytes(e.rx)
            del e.rx[:]
            self.net.consumed(e, len(data))
            self.raw += data
            for f in self.parser.feed(data):
                f.t = self.k.now
                self.frames.append(f)
                if self.on_frame:
                    self.on_frame(self, f)
        self._flush()
        if self.reading and not e.rx and (e.eof or e.err or e.state == "dead"):
            self.eof = True
            self.err = e.err or self.err
            self._end()

    def _end(self):
        if not self.ended:
            self.ended = True
            self.ended_at = self.k.now
            if self.on_end:
                self.on_end(self)

    def _flush(self):
        e = self.end
        while self.out and e.state == "open" and not e.wr_shut:
            try:
                n = self.net.send(e, memoryview(bytes(self.out)))
            except BlockingIOError:
                return
            except OSError as x:
                self.err = x.errno
                del self.out[:]
                return
            del self.out[:n]
        if not self.out and self.close_after:
            how, self.close_after = self.close_after, None
            if how == "shut":
                self.net.shutdown_wr(e)
            elif how == "rst":
                self.reset()
            else:
                self.close()

    # actions; callable from any context
    def send(self, data):
        self.out += data
        self._poke()

    def send_later(self, delay, data):
        self.k.after(delay, self.send, data)

    def stop_reading(self):
        self.reading = False

    def resume(self):
        self.reading = True
        self._poke()

    def finish(self, how="close"):
        """close (or 'shut' down writing, or 'rst') once everything queued was handed to the network"""
        self.close_after = how
        self._poke()

    def close(self):
        if self.end.state not in ("closed",):
            self.net.close_end(self.end)
        self._end()

    def reset(self):
        """abortive close by this side: the peer sees ECONNRESET"""
        e = self.end
        if e.state == "open":
            pipe = e.conn.pipe_from(e)
            pipe.fin_t = self.k.now
            self.net._enqueue(pipe, ("rst",))
            e.state = "closed"
            self.k.ev("abort", e.conn.id)
        elif e.state == "connecting":
            e.state = "closed"
        self._end()

    @property
    def alive(self):
        return self.end.state == "open" and not self.end.eof


def connect(k, node, ip, port, on_open=None, on_frame=None, on_end=None):
    """scripted client: starts connecting to ip:port from node"""
    net = k.net
    e = End(net, node)
    e.state = "connecting"
    e.laddr = (node.ip, net.ephemeral())
    e.raddr = (ip, port)
    e.role = "client"
    c = ActorConn(k, e, "resp")
    c.on_open, c.on_frame, c.on_end = on_open, on_frame, on_end
    k.after(net.syn_timeout, net._syn_timeout, e)
    net.syn(e, ip, port)
    return c


class ActorServer:
    """scripted server listening on node:port"""

    def __init__(self, k, node, port, on_frame=None, on_accept=None, on_end=None, backlog=100):
        self.k = k
        self.net = k.net
        self.node = node
        self.port = port
        self.on_frame = on_frame
        self.on_accept = on_accept
        self.on_end = on_end
        self.conns = []
        self.accepting = True
        self.backlog = backlog
        self.end = None
        self.listen()

    def listen(self):
        e = End(self.net, self.node)
        e.laddr = (self.node.ip, self.port)
        e.state = "listen"
        e.queue = []
        e.backlog = self.backlog
        self.net.listeners[(self.node.name, self.port)] = e
        e.sels.append(self)
        self.end = e
        self.k.ev("alisten", self.node.name, self.port)

    def unlisten(self):
        """stop listening: connects are refused"""
        if self.end is not None and self.end.state == "listen":
            self.k.fault("server_down", self.node.name, self.port)
            self.net.close_end(self.end)

    def crash(self, rst=False):
        """the server process dies: listener and all connections go"""
        self.unlisten()
        for c in self.conns:
            c.out.clear()
            if rst:
                c.reset()
            else:
                c.close()

    @property
    def up(self):
        return self.end.state == "listen"

    def _poke(self):
        self.k.at(self.k.now, self._accept)

    def _forget(self, end):
        pass

    def _accept(self):
        if not self.accepting:
            return
        q = self.end.queue
        while q:
            end = q.pop(0)
            c = ActorConn(self.k, end, "req")
            c.on_frame = self.on_frame
            c.on_end = self._ended
            self.conns.append(c)
            if self.on_accept:
                self.on_accept(c)

    def _ended(self, c):
        if self.on_end:
            self.on_end(c)
        elif c.end.state == "open":
            c.finish("close")
