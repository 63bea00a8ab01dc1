"""One simulated run: the kernel, the network, nodes with their images of the
code under test, and what scenarios share."""
import asyncio
import gc
import json
import os
import random
import sys

from . import bolt, image as _image, kernel as _k
from .kernel import Choices, Kernel, SimAbort, HarnessError, MS, SEC, US
from .net import Network


class Violation(BaseException):
    def __init__(self, sig, msg):
        super().__init__(sig, msg)
        self.sig = sig
        self.msg = msg


class Skip(BaseException):
    """the run says nothing about the property (and why)"""


class Env:
    def __init__(self, prop, k):
        self.prop = prop
        self.k = k
        self.ch = k.ch
        self.net = k.net
        self.images = {}
        self.execs = []
        self.features = {}
        self.steps = 0
        self.known = []
        self.crowd = 0      # how much longer things may take because so many want the processor

    # ---- verdicts
    def fail(self, sig, msg, *args):
        raise Violation(sig, msg % args if args else msg)

    def check(self, cond, sig, msg, *args):
        self.steps += 1
        if not cond:
            self.fail(sig, msg, *args)

    def probe(self, name):
        self.k.probe(name)

    def feature(self, **kw):
        self.features.update(kw)

    # ---- nodes and code
    def node(self, name):
        return self.k.node(name)

    def image(self, node, wrap=None):
        """the process image of the code under test running on that node"""
        im = self.images.get(node.name)
        if im is None:
            im = self.images[node.name] = _image.Image(node.name)
            self._load(im, node, wrap)
        return im

    def reload(self, node, wrap=None):
        """a restarted process: fresh module state"""
        self.images.pop(node.name, None)
        return self.image(node, wrap)

    def _load(self, im, node, wrap):
        k = self.k
        prev = k.current.node
        k.current.node = node
        start = None
        if wrap is not None:
            start = wrap
        ri, rr = random.randint, random.randrange
        if start is not None:
            random.randint = lambda a, b: max(a, min(b, start))
            random.randrange = lambda a, b=None, s=1: max(0 if b is None else a, min((a if b is None else b) - 1, start))
        k.depth += 1
        try:
            im.load("anthunder")
            im.load("anthunder.listener.sock_listener")
        finally:
            k.depth -= 1
            random.randint, random.randrange = ri, rr
            k.current.node = prev

    def wrap_start(self, p=0.25, span=60):
        """request ids start close to the wrap-around in some runs"""
        if self.ch.bool("wrap", p):
            return 0x7fffffff - self.ch.int("wrap", span)
        return None

    # ---- running things
    def go(self, fn, *args, node=None, name=None):
        """run fn on a new simulated thread of node; returns a Job"""
        j = Job(self, fn, args)
        j.t = self.k.spawn(j._run, (), name=name or getattr(fn, "__name__", "job"), node=node)
        return j

    def on(self, node, fn, *args):
        """run fn in the driver thread as if on node"""
        k = self.k
        prev = k.current.node
        k.current.node = node
        try:
            return fn(*args)
        finally:
            k.current.node = prev

    def sleep(self, ms):
        self.k.sleep(int(ms * MS))

    def wait(self, jobs, ms):
        """wait until all jobs are done, at most ms; True if all are"""
        k = self.k
        end = k.now + int(ms * MS)
        if not isinstance(jobs, (list, tuple)):
            jobs = [jobs]
        for j in jobs:
            while not j.done:
                if k.now >= end:
                    return False
                j.waiters.append(k.current)
                k.block(end, "join")
        return True

    def until(self, pred, ms, step=5):
        k = self.k
        end = k.now + int(ms * MS)
        while not pred():
            if k.now >= end:
                return False
            k.sleep(min(int(step * MS), max(1, end - k.now)))
        return True

    @property
    def eps(self):
        """what scheduling alone may add to any delay (ns)"""
        return 60 * MS + self.k.slack + self.crowd

    def gc(self):
        self.k.depth += 1   # finalizers may close sockets, but nobody else runs meanwhile
        try:
            gc.collect()
        finally:
            self.k.depth -= 1

    # ---- looking at event loops
    def loops(self, node):
        return [l for l, n in self.k.loops if n is node]

    def tasks(self, node):
        out = []
        for l in self.loops(node):
            out += [t for t in asyncio.all_tasks(l) if not t.done()]
        return out

    def timers(self, node):
        return sum(1 for l in self.loops(node) for h in l._scheduled if not h._cancelled)

    # ---- sidecar
    def sidecar(self, node, **kw):
        node.http = Sidecar(self, **kw)
        return node.http


class Job:
    def __init__(self, env, fn, args):
        self.env = env
        self.fn = fn
        self.args = args
        self.done = False
        self.result = None
        self.exc = None
        self.started = None
        self.ended = None
        self.waiters = []
        self.t = None

    def _run(self):
        k = self.env.k
        self.started = k.now
        try:
            self.result = self.fn(*self.args)
        except (Violation, HarnessError) as e:
            k.deferred = e
            self.exc = e
        except BaseException as e:
            self.exc = e
        self.ended = k.now
        self.done = True
        for t in self.waiters:
            k.wake(t)


class HttpRefused(Exception):
    pass


class Sidecar:
    """the service mesh's control endpoint as seen through requests"""

    def __init__(self, env, plan=None, latency_ms=1):
        self.env = env
        self.log = []          # [time, endpoint, payload, outcome, time answered, thread]
        self.plan = plan       # callable(endpoint, payload) -> outcome
        self.latency_ms = latency_ms
        self.apps = []
        self.subs = set()
        self.pubs = {}

    def handle(self, url, body):
        k = self.env.k
        endpoint = url.split("/", 3)[3]
        payload = json.loads(body) if body else None
        out = self.plan(endpoint, payload) if self.plan else "ok"
        entry = [k.now, endpoint, payload, out, None, k.current.tid]
        self.log.append(entry)
        k.ev("http", endpoint, out)
        lat = self.env.ch.int("http", max(1, int(self.latency_ms * 1000))) * US
        if lat:
            k.sleep(lat)
        else:
            k.yp()
        if out != "ok":
            k.fault("sidecar_" + out, endpoint)
        if out in ("ok", "lost", "notjson_ok"):
            self._apply(endpoint, payload)
        entry[4] = k.now
        if out == "refused":
            raise HttpRefused("connection refused")
        if out == "lost":      # applied, but the answer never arrives
            raise HttpRefused("connection reset")
        if out == "ok":
            return 200, json.dumps({"success": True})
        if out == "reject":
            return 200, json.dumps({"success": False, "errorMessage": "no"})
        if out == "reject_nomsg":
            return 200, json.dumps({"success": False})
        if out == "truthy":
            return 200, json.dumps({"success": "false"})
        if out == "missing":
            return 200, json.dumps({"errorMessage": "x"})
        if out == "notjson":
            return 200, "<html>busy</html>"
        if out == "list":
            return 200, "[true]"
        if out == "500":
            return 500, json.dumps({"success": True})
        if out == "404":
            return 404, ""
        if out == "503":
            return 503, json.dumps({"success": False})
        if out == "201":
            return 201, json.dumps({"success": True})
        raise HarnessError("sidecar outcome %r" % (out,))

    def _apply(self, endpoint, payload):
        if endpoint == "configs/application":
            self.apps.append(payload)
        elif endpoint == "services/subscribe":
            self.subs.add(payload["serviceName"])
        elif endpoint == "services/unsubscribe":
            self.subs.discard(payload["serviceName"])
        elif endpoint == "services/publish":
            self.pubs[payload["serviceName"]] = payload
        elif endpoint == "services/unpublish":
            self.pubs.pop(payload["serviceName"], None)


def install_http():
    import requests
    import requests.adapters
    import requests.exceptions

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        k = _k.K
        if k is None:
            raise RuntimeError("HTTP outside a run")
        h = k.current.node.http
        if h is None:
            k.yp()
            raise requests.exceptions.ConnectionError("connection refused", request=request)
        try:
            status, text = h.handle(request.url, request.body)
        except HttpRefused as e:
            raise requests.exceptions.ConnectionError(str(e), request=request)
        r = requests.Response()
        r.status_code = status
        r._content = text.encode()
        r.url = request.url
        r.request = request
        r.encoding = "utf-8"
        r.reason = str(status)
        return r

    requests.adapters.HTTPAdapter.send = send
    requests.sessions.get_netrc_auth = lambda *a, **kw: None
    requests.sessions.getproxies = lambda: {}
    requests.sessions.get_environ_proxies = lambda *a, **kw: {}


def install_misc():
    """the remaining sources of nondeterminism"""
    from asyncio import base_events
    real_init = base_events.BaseEventLoop.__init__

    def __init__(self):
        real_init(self)
        k = _k.K
        if k is not None:
            k.loops.append((self, k.current.node))
            self.slow_callback_duration = 1e9
    base_events.BaseEventLoop.__init__ = __init__

    def getpid():
        k = _k.K
        return 4000 + (list(k.nodes).index(k.current.node.name) if k is not None else 0)
    os.getpid = getpid

    rnd = random.Random(0)
    os.urandom = lambda n: rnd.randbytes(n)
    os._dst_rnd = rnd
    os.getrandom = lambda n, flags=0: rnd.randbytes(n)
    random._urandom = os.urandom
    real_seed = random.Random.seed
    random.Random.seed = lambda self, a=None, version=2: real_seed(
        self, rnd.getrandbits(128) if a is None else a, version)
    random.SystemRandom.random = lambda self: rnd.random()
    random.SystemRandom.getrandbits = lambda self, n: rnd.getrandbits(n)
    import uuid
    uuid.getnode = lambda: 0x0242ac110002
    uuid._generate_time_safe = None
