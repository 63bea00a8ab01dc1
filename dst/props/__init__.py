"""The registry of properties and the scenarios that decide them."""

REAL_ALL = ["anthunder (client, listener, protocol, mesh, helpers)", "mysockpool", "mytracer",
            "asyncio event loops, streams and tasks of the standard library", "threading, queue, "
            "concurrent.futures, socketserver, selectors users of the standard library", "requests up to its "
            "transport adapter"]
STUB_ALL = ["TCP, socket objects, selectors/select/poll (simulated network)", "locks, thread start and thread "
            "scheduling (simulated)", "clocks, sleeps and timers (simulated)", "uvloop (absent, so asyncio's own "
            "loop runs)", "HTTP transport to the sidecar (scripted sidecar)", "remote peers where a scenario "
            "scripts them", "process id, host name, randomness (seeded)"]
ASSUME = ["threads may be preempted at any source line of the code under test and at every lock, socket, clock "
          "and queue operation (at every bytecode where a scenario says so); library code is preempted only at "
          "such operations",
          "TCP delivers each byte stream in order or breaks it; bytes are not corrupted by the network",
          "asyncio's own event loop stands for uvloop"]


NOTE = ("Seeded search over schedules and faults: no violation in the simulated runs listed in the evidence, not a "
        "proof. Trusts the simulated network, clocks, locks and thread scheduler, the scripted peers and the oracle; "
        "asyncio's own loop stands for uvloop.")


class Scen:
    def __init__(self, name, fn, weight=1):
        self.name = name
        self.fn = fn
        self.weight = weight


class Spec:
    def __init__(self, pid, scens, quick, thorough=None, real=None, stub=None, assumptions=None, note=None):
        self.pid = pid
        self.note = (note + " " if note else "") + NOTE
        self.scens = scens
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.real = real or REAL_ALL
        self.stub = stub or STUB_ALL
        self.assumptions = assumptions or ASSUME
        self._order = None

    def order(self):
        if self._order is None:
            o = []
            left = [[s.weight, s] for s in self.scens]
            while any(w > 0 for w, _ in left):
                for e in left:
                    if e[0] > 0:
                        o.append(e[1])
                        e[0] -= 1
            self._order = o
        return self._order

    def by_name(self, name):
        for s in self.scens:
            if s.name == name:
                return s
        raise KeyError(name)

    def only(self, name):
        return Spec(self.pid, [s for s in self.scens if s.name == name], self.quick, self.thorough,
                    self.real, self.stub, self.assumptions, None)


PROPS = {}


def register(pid, scens, quick, **kw):
    PROPS[pid] = Spec(pid, [Scen(*s) if isinstance(s, tuple) else s for s in scens], quick, **kw)


from . import aioserver, aioclient, e2e, sockserver, pool, blocking, local, mesh  # noqa: E402,F401

register("C01", [("match", aioclient.c01_match, 6), ("burst", aioclient.c01_burst, 1)], 4500)
register("C02", [("payload", e2e.c02_payload, 12), ("large", e2e.c02_large, 1)], 4500)
register("C03", [("aio", aioclient.c03_aio, 1), ("blocking", aioclient.c03_blocking, 1)], 4500)
register("C04", [("failures", aioclient.c04_failures, 2), ("refused", aioclient.c04_refused, 1),
                 ("encode", aioclient.c04_encode, 1), ("pressed", aioclient.c04_pressed, 1), ("blocking", blocking.c04_blocking, 1),
                 ("crowd", aioclient.c04_crowd, 1)], 6000)
register("C05", [("async", aioclient.c05_async, 6), ("burst", aioclient.c01_burst, 1), ("crowd", aioclient.c04_crowd, 1)], 4800)
register("C06", [("recover", e2e.c06_recover, 3), ("outage", e2e.c06_outage, 1)], 3200)
register("C07", [("residue", aioclient.c07_residue, 5), ("heartbeats", aioclient.c07_heartbeats, 1)], 4500)
register("C08", [("client", aioclient.c08_client, 1), ("server", sockserver.c08_server, 1)], 4200)
register("C09", [("oneway", e2e.c09_oneway, 4), ("residue", e2e.c09_residue, 2), ("flood", e2e.c09_flood, 1), ("raw", aioserver.c09_raw, 2)], 4800)
register("C10", [("answers", aioserver.c10_answers, 1)], 4500)
register("C11", [("bad_frames", aioserver.c11_bad_frames, 1)], 4500)
register("C12", [("timeouts", aioserver.c12_timeouts, 4), ("pressed", aioserver.c12_pressed, 2),
                 ("crowd", aioserver.c12_crowd, 1)], 3800)
register("C13", [("peers", aioserver.c13_peers, 8), ("shutdown", aioserver.c13_shutdown, 4), ("crowd", aioserver.c13_crowd, 1)], 3600)
register("C14", [("answers", sockserver.c14_answers, 1), ("bad", sockserver.c14_bad, 1),
                 ("peers", sockserver.c14_peers, 1), ("shutdown", sockserver.c14_shutdown, 1)], 4800)
register("C15", [("context", e2e.c15_context, 1)], 4500)
register("C16", [("spans", local.c16_spans, 3), ("traces", local.c16_traces, 2)], 7500)
register("C17", [("pool", pool.c17_pool, 3), ("block", pool.c17_block, 1), ("scope", pool.c17_scope, 1)], 7000)
register("C18", [("lend", pool.c18_lend, 1), ("close", pool.c18_close, 1), ("read", pool.c18_read, 1)], 5400)
register("C19", [("lru", pool.c19_lru, 3), ("manager", pool.c19_manager, 2)], 7500)
register("C20", [("startup", mesh.c20_startup, 2), ("subscribe", mesh.c20_subscribe, 2),
                 ("publish", mesh.c20_publish, 2), ("without", mesh.c20_without, 1)], 6000)
register("C21", [("calls", local.c21_calls, 1), ("draw", local.c21_draw, 1)], 6000)
register("C22", [("replies", blocking.c22_replies, 1)], 4500)
register("C23", [("dispatch", mesh.c23_dispatch, 1)], 4500)
register("C24", [("server", aioserver.c24_server, 2), ("client", aioclient.c24_client, 2), ("threads", sockserver.c24_threads, 1)], 3600)
register("C25", [("map", local.c25_map, 2), ("calls", local.c25_calls, 1)], 7200)
