"""Executing one simulated run in a forked child."""
import gc
import json
import os
import random
import select as _select_mod
import signal
import struct
import sys
import time

from . import kernel as _k
from .env import Env, Violation, Skip
from .kernel import Choices, Kernel, SimAbort, HarnessError, SEC
from .net import Network

_real_time = time.monotonic          # bound before boot()
_real_poll = _select_mod.poll
RUN_WALL = float(os.environ.get("DST_RUN_WALL", "60"))
VERSION = 1
# properties that promise progress: a run that never comes to rest violates them
LIVE = {"C%02d" % i for i in range(1, 26)}


def execute(prop, scen, seed, replay=None, keep_log=False):
    """runs in the child; returns the result dict"""
    ch = Choices(seed, replay)
    rs = "rnd/%s" % seed if replay is None else "rnd/replay"
    if replay is not None and "rnd" in replay:
        rs = "rnd/%d" % replay["rnd"][0]
        ch.trace["rnd"] = [replay["rnd"][0]]
    else:
        x = random.Random(rs).getrandbits(40)
        rs = "rnd/%d" % x
        ch.trace["rnd"] = [x]
    random.seed(rs)
    os._dst_rnd.seed(rs)
    k = Kernel(ch)
    k.net = Network(k)
    k.deferred = None
    _k.K = k
    env = Env(prop, k)
    res = {"status": "ok", "sig": None, "msg": None}
    try:
        try:
            scen.fn(env)
        finally:
            if k.harness_error:
                raise HarnessError(k.harness_error)
            if k.deferred is not None:
                raise k.deferred
    except Violation as v:
        res.update(status="violation", sig=v.sig, msg=v.msg)
    except Skip as s:
        res.update(status="skip", msg=str(s))
    except SimAbort as a:
        if k.harness_error:
            res.update(status="harness", msg=k.harness_error)
        elif prop in LIVE:
            res.update(status="violation", sig=prop + ":livelock" if str(a) != "deadlock" else prop + ":deadlock",
                       msg="the system did not come to rest: %s (%d steps, %d lines, %.1f s simulated)" % (
                           "nothing can ever happen again" if str(a) == "deadlock" else "it keeps running without an end",
                           k.yields, k.lines, (k.now - k.t0) / 1e9))
        else:
            res.update(status="abort", msg=str(a))
    except HarnessError as e:
        res.update(status="harness", msg=str(e))
    except BaseException:
        import traceback as tb
        res.update(status="harness", msg="".join(tb.format_exception(*sys.exc_info())))
    k.finished = True
    res.update(
        scen=scen.name, seed=seed, sim_ms=(k.now - k.t0) // 1000000, switches=k.switches,
        preempts=k.preempts, yields=k.yields, lines=k.lines, faults=k.faults, probes=k.probes,
        conns=k.net.nconn, bytes=k.net.bytes, threads=len(k.threads), events=len(k.log),
        hash=k.log_hash(), sched=k.sched_hash.hexdigest(), features=env.features, steps=env.steps,
        known=env.known, uncaught=len(k.uncaught))
    if res["status"] == "violation" or keep_log:
        res["trace"] = {a: b for a, b in ch.trace.items() if any(b)}
        res["log"] = ["%.6f t%d %s" % (e[0] / 1e6, e[1], " ".join(str(x) for x in e[2:]))
                      for e in k.log[-400:]]
        res["uncaught_tb"] = [u[1][-1500:] for u in k.uncaught[:3]]
    return res


def fork_run(prop, scen, seed, replay=None, keep_log=False, wall=None):
    """fork, run, collect; a child that dies or hangs is a harness error"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            if not os.environ.get("DST_DEBUG"):
                null = os.open("/dev/null", os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
            gc.disable()
            res = execute(prop, scen, seed, replay, keep_log)
            data = json.dumps(res, default=str).encode()
            data = struct.pack("<I", len(data)) + data
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = _real_time() + (wall or RUN_WALL)
    p = _real_poll()
    p.register(r, _select_mod.POLLIN | _select_mod.POLLHUP)
    timed_out = False
    try:
        while True:
            left = deadline - _real_time()
            if left <= 0:
                timed_out = True
                break
            if not p.poll(left * 1000):
                continue
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
            if len(buf) >= 4 and len(buf) >= 4 + struct.unpack("<I", buf[:4])[0]:
                break
    finally:
        os.close(r)
        if timed_out:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if timed_out:
        return {"status": "walltimeout", "msg": "run exceeded %ss of real time" % (wall or RUN_WALL),
                "scen": scen.name, "seed": seed}
    try:
        return json.loads(bytes(buf[4:]))
    except Exception:
        return {"status": "harness", "msg": "child died", "scen": scen.name, "seed": seed}
