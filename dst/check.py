"""python -m dst.check PROPERTY [--tier quick|thorough] [--replay FILE] ...

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check could not give an answer (harness error, stuck run)."""
import argparse
import gc
import hashlib
import json
import os
import select as _select_mod
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.monotonic
_poll = _select_mod.poll
_sleep = time.sleep

from . import boot, run as _run  # noqa: E402,F401

QUICK_WALL = float(os.environ.get("DST_QUICK_WALL", "60"))
THOROUGH_WALL = float(os.environ.get("DST_THOROUGH_WALL", "600"))


def cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except Exception:
        return [0]


class Proc:
    """a forked helper process that streams length-prefixed JSON records"""

    def __init__(self, body, cpu):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                try:
                    os.sched_setaffinity(0, {cpu})
                except Exception:
                    pass

                def emit(obj):
                    d = json.dumps(obj, default=str).encode()
                    d = struct.pack("<I", len(d)) + d
                    while d:
                        d = d[os.write(w, d):]
                body(emit)
                code = 0
            except BrokenPipeError:
                code = 0
            except BaseException:
                import traceback
                sys.stderr.write("".join(traceback.format_exception(*sys.exc_info())))
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.buf = bytearray()
        self.open = True

    def records(self):
        chunk = os.read(self.fd, 1 << 18)
        if not chunk:
            self.open = False
            os.close(self.fd)
            os.waitpid(self.pid, 0)
            return
        self.buf += chunk
        while len(self.buf) >= 4:
            n = struct.unpack("<I", self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                return
            d = bytes(self.buf[4:4 + n])
            del self.buf[:4 + n]
            yield json.loads(d)

    def kill(self):
        if self.open:
            try:
                os.kill(self.pid, signal.SIGTERM)
            except OSError:
                pass
            self.open = False
            os.close(self.fd)
            os.waitpid(self.pid, 0)


def gather(procs, on_record, deadline=None):
    """feed records of all procs to on_record until all ended, on_record returns True, or deadline"""
    while any(p.open for p in procs):
        poll = _poll()
        by = {}
        for p in procs:
            if p.open:
                poll.register(p.fd, _select_mod.POLLIN | _select_mod.POLLHUP)
                by[p.fd] = p
        ms = 500
        if deadline is not None:
            ms = max(0, min(500, (deadline - _now()) * 1000))
        for fd, _ in poll.poll(ms):
            for rec in by[fd].records():
                if on_record(rec):
                    return True
        if deadline is not None and _now() >= deadline:
            return False
    return False


def run_seed(base, prop, i):
    return "%s/%s/%d" % (base, prop, i)


def pick_scen(spec, i):
    """round-robin by weight, so that every scenario gets its share early on"""
    order = spec.order()
    return order[i % len(order)]


def explore(prop, spec, base, nruns, wall, jobs, first=0):
    from . import run as R
    cp = cpus()
    t0 = _now()
    deadline = t0 + wall
    results = []
    bad = []

    def worker(w):
        def body(emit):
            i = first + w
            while i < first + nruns and _now() < deadline:
                res = R.fork_run(prop, pick_scen(spec, i), run_seed(base, prop, i))
                res["i"] = i
                emit(res)
                if res["status"] in ("violation",):
                    return
                i += jobs
        return body

    procs = [Proc(worker(w), cp[w % len(cp)]) for w in range(jobs)]

    def on(rec):
        results.append(rec)
        if rec["status"] == "violation":
            bad.append(rec)
            return True
        return False

    try:
        gather(procs, on, deadline + R.RUN_WALL + 30)
    finally:
        for p in procs:
            p.kill()
    return results, bad, _now() - t0


class Minimiser:
    def __init__(self, prop, scen, rec, budget, jobs):
        self.prop, self.scen, self.sig = prop, scen, rec["sig"]
        self.seed = rec["seed"]
        self.best = {a: list(b) for a, b in rec["trace"].items()}
        self.best_rec = rec
        self.deadline = _now() + budget
        self.jobs = jobs
        self.cpus = cpus()
        self.evals = 0

    def batch(self, cands):
        """evaluate candidate traces in parallel; list of failing (index, rec)"""
        from . import run as R
        out = []
        J = max(1, min(self.jobs, len(cands)))

        def body(w):
            def b(emit):
                for j in range(w, len(cands), J):
                    if _now() > self.deadline:
                        return
                    rec = R.fork_run(self.prop, self.scen, self.seed, cands[j], wall=20)
                    emit([j, rec if rec["status"] == "violation" else {"status": rec["status"]}])
            return b
        procs = [Proc(body(w), self.cpus[w % len(self.cpus)]) for w in range(J)]

        def on(x):
            self.evals += 1
            if x[1]["status"] == "violation" and x[1]["sig"] == self.sig:
                out.append((x[0], x[1]))
            return False
        try:
            gather(procs, on, self.deadline + 25)
        finally:
            for p in procs:
                p.kill()
        return sorted(out, key=lambda z: z[0])

    @staticmethod
    def cost(t):
        return (sum(1 for l in t.values() for v in l if v), sum(v for l in t.values() for v in l),
                sum(len(l) for l in t.values()))

    def accept(self, rec):
        t = {a: list(b) for a, b in rec["trace"].items()}
        if self.cost(t) < self.cost(self.best):
            self.best = t
            self.best_rec = rec
            return True
        return False

    def run(self):
        live = lambda: _now() < self.deadline
        # first: does the recorded trace reproduce at all?
        if not self.batch([self.best]):
            return False
        changed = True
        while changed and live():
            changed = False
            # drop whole labels
            labels = [l for l in sorted(self.best) if l != "rnd" and any(self.best[l])]
            good = self.batch([{a: b for a, b in self.best.items() if a != l} for l in labels])
            drop = [labels[j] for j, _ in good]
            while drop and live():
                r = self.batch([{a: b for a, b in self.best.items() if a not in drop}])
                if r and self.accept(r[0][1]):
                    changed = True
                    break
                if len(drop) == 1:
                    break
                drop = drop[:max(1, len(drop) // 2)]
            # zero chunks of each label
            for l in sorted(self.best, key=lambda l: -len(self.best[l])):
                if l == "rnd":
                    continue
                n = len(self.best.get(l, ()))
                size = n
                while size >= 1 and live():
                    lst = self.best.get(l)
                    if not lst:
                        break
                    cands = []
                    for s in range(0, len(lst), size):
                        if any(lst[s:s + size]):
                            cands.append(dict(self.best, **{l: lst[:s] + [0] * min(size, len(lst) - s) + lst[s + size:]}))
                        if s and any(lst[s:]) and size > 1:
                            cands.append(dict(self.best, **{l: lst[:s]}))
                    if len(cands) > 64:
                        cands = cands[:64]
                    got = False
                    for j, r in self.batch(cands):
                        if self.accept(r):
                            got = changed = True
                    if not got or size > len(self.best.get(l, ())):
                        size //= 2
            # smaller values, few per label
            for l in sorted(self.best):
                if l == "rnd" or not live():
                    continue
                lst = self.best[l]
                idx = [i for i, v in enumerate(lst) if v > 1][:24]
                cands = []
                for i in idx:
                    for v in {lst[i] // 2, 1}:
                        cands.append(dict(self.best, **{l: lst[:i] + [v] + lst[i + 1:]}))
                for j, r in self.batch(cands):
                    if self.accept(r):
                        changed = True
        return True


def write_replay(prop, rec, path, minimised):
    trace = {a: b for a, b in rec["trace"].items() if a == "rnd" or any(b)}
    for a in list(trace):
        if a != "rnd":
            while trace[a] and trace[a][-1] == 0:
                trace[a].pop()
    doc = {
        "format": "dst-replay-1",
        "property": prop, "scenario": rec["scen"], "seed": rec["seed"], "signature": rec["sig"],
        "message": rec["msg"], "minimised": minimised, "event_log_sha1": rec["hash"],
        "how": "cd /verif && /opt/venv/bin/python -m dst.check %s --replay %s" % (prop, path),
        "faults": rec["faults"], "sim_ms": rec["sim_ms"], "switches": rec["switches"],
        "choices": trace, "schedule_and_fault_trace": rec.get("log", []),
        "uncaught": rec.get("uncaught_tb", []),
    }
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)


def replay(prop, spec, path, quiet=False):
    from . import run as R
    with open(path) as f:
        doc = json.load(f)
    scen = spec.by_name(doc["scenario"])
    try:
        os.sched_setaffinity(0, {cpus()[0]})
    except Exception:
        pass
    rec = R.fork_run(prop, scen, doc["seed"], doc["choices"])
    same = rec["status"] == "violation" and rec["sig"] == doc["signature"]
    exact = same and rec["hash"] == doc["event_log_sha1"]
    if not quiet:
        print("replay of %s: %s%s" % (path, rec["status"], " (event log identical)" if exact else ""))
        if rec["status"] == "violation":
            for line in rec.get("log", [])[-60:]:
                print("   ", line)
            print("violated: [%s] %s" % (rec["sig"], rec["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        elif rec["status"] != "ok":
            print(rec.get("msg"))
    print("REPLAY %s" % ("exact" if exact else "same" if same else "different"))
    if rec["status"] == "violation":
        return 1
    return 0 if rec["status"] in ("ok", "skip", "abort") else 2


def percent(d, n):
    return {k: v for k, v in sorted(d.items())}


def evidence(prop, spec, tier, seed, results, wall, violations, jobs, extra):
    ok = [r for r in results if r["status"] in ("ok", "violation")]
    faults, probes, scen, status, feats = {}, {}, {}, {}, {}
    for r in results:
        status[r["status"]] = status.get(r["status"], 0) + 1
        scen[r["scen"]] = scen.get(r["scen"], 0) + 1
        for k, v in r.get("faults", {}).items():
            f = faults.setdefault(k, [0, 0])
            f[0] += v
            f[1] += 1
        for k, v in r.get("probes", {}).items():
            p = probes.setdefault(k, [0, 0])
            p[0] += v
            p[1] += 1
        for k, v in r.get("features", {}).items():
            if isinstance(v, (str, bool, int)):
                feats.setdefault(k, {})
                feats[k][str(v)] = feats[k].get(str(v), 0) + 1
    nontrivial = {}
    for r in ok:
        if r["steps"] > 0 and (r["switches"] > 1):
            nontrivial[(r["scen"], r["hash"])] = r
    sample = sorted(nontrivial.values(), key=lambda r: r["seed"])[:3]
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(nontrivial),
        "rule": "one evaluation = one simulated run of a seeded scenario; distinct by the hash of its whole "
                "event log and schedule; non-trivial if at least one oracle assertion was evaluated and "
                "control passed between simulated threads or peers more than once",
        "samples": [{k: r.get(k) for k in ("scen", "seed", "sim_ms", "switches", "preempts", "conns", "bytes",
                                           "threads", "steps", "faults", "probes", "features", "hash")}
                    for r in sample],
        "run_status": status,
        "runs_per_hour": int(len(results) * 3600 / max(wall, 1e-6)),
        "seeds_per_hour": int(len(results) * 3600 / max(wall, 1e-6)),
        "simulated_seconds": round(sum(r.get("sim_ms", 0) for r in results) / 1000.0, 1),
        "context_switches": sum(r.get("switches", 0) for r in results),
        "preemptions": sum(r.get("preempts", 0) for r in results),
        "distinct_schedules": len({r["sched"] for r in ok}),
        "oracle_assertions": sum(r.get("steps", 0) for r in results),
        "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(faults.items())},
        "probes_hit": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
        "scenarios": scen,
        "features": {k: dict(sorted(v.items())[:12]) for k, v in sorted(feats.items())},
        "components_real": spec.real,
        "components_stubbed": spec.stub,
        "workers": jobs,
    }
    cov.update(extra)
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": spec.assumptions, "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        doc = json.load(f)
    return [e for e in doc["findings"] if e["property"] == prop and e["status"] == "open"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DST_JOBS", "0")))
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--scen")
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int, help="run one index in this process and print everything")
    ap.add_argument("--hashes", help="write index -> event log hash to this file")
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args(argv)
    if argv is None and os.environ.get("PYTHONHASHSEED", "random") == "random":
        # sets of strings must be in the same order when a trace is replayed
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "dst.check"] + sys.argv[1:])
    try:
        boot.boot()
        from .props import PROPS
        spec = PROPS[a.prop]
        from . import run as R
    except SyntaxError as e:
        print("the code under test does not compile: %s" % e)
        return 2
    if a.scen:
        spec = spec.only(a.scen)
    gc.collect()
    gc.freeze()
    if a.replay:
        return replay(a.prop, spec, a.replay)
    seed = str(a.seed)
    if a.one is not None:
        rec = R.fork_run(a.prop, pick_scen(spec, a.one), run_seed(seed, a.prop, a.one), keep_log=True)
        for line in rec.get("log", []):
            print(line)
        print(json.dumps({k: v for k, v in rec.items() if k not in ("log", "trace", "uncaught_tb")},
                         indent=1, default=str))
        for t in rec.get("uncaught_tb", []):
            print(t)
        if rec["status"] == "harness":
            print(rec["msg"])
        return 0
    quick = a.tier != "thorough"
    nruns = a.runs or (spec.quick if quick else spec.thorough)
    wall = a.wall or (QUICK_WALL if quick else THOROUGH_WALL)
    jobs = a.jobs or min(8, len(cpus()))
    results, bad, took = explore(a.prop, spec, seed, nruns, wall, jobs, a.first)
    if a.hashes:
        with open(a.hashes, "w") as f:
            json.dump({r["i"]: [r["status"], r.get("hash")] for r in results}, f, sort_keys=True)
    st = {}
    for r in results:
        st[r["status"]] = st.get(r["status"], 0) + 1
    print("property %s: %d runs in %.1fs, %s, %.0f simulated seconds" % (
        a.prop, len(results), took, st, sum(r.get("sim_ms", 0) for r in results) / 1000.0))
    if bad:
        rec = min(bad, key=lambda r: r["i"])
        path = os.path.join(VERIF, "evidence", "replays", "%s-%s.json" % (
            a.prop, hashlib.sha1(rec["seed"].encode()).hexdigest()[:10]))
        scen = spec.by_name(rec["scen"])
        extra = {"violating_seed": rec["seed"]}
        write_replay(a.prop, rec, path, False)
        if not a.no_min:
            m = Minimiser(a.prop, scen, rec, 40 if quick else 120, jobs)
            okm = m.run()
            extra["minimiser_evaluations"] = m.evals
            if okm and m.best_rec is not rec:
                p2 = path[:-5] + ".min.json"
                write_replay(a.prop, m.best_rec, p2, True)
                out = subprocess.run([sys.executable, "-m", "dst.check", a.prop, "--replay", p2], cwd=VERIF,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if out.returncode == 1 and b"REPLAY exact" in out.stdout:
                    path, rec = p2, m.best_rec
                else:
                    print("note: the minimised trace did not replay exactly; reporting the full one")
                extra["fresh_process_replay_exact"] = path == p2
            elif not okm:
                print("note: the recorded trace did not reproduce")
        evidence(a.prop, spec, a.tier, int(a.seed) if a.seed.isdigit() else 0, results, took, 1, jobs, extra)
        print("scenario %s, seed %s, %d choices, %s faults" % (
            rec["scen"], rec["seed"], sum(len(v) for v in rec["trace"].values()), rec["faults"]))
        for line in rec.get("log", [])[-25:]:
            print("   ", line)
        print("violated: [%s] %s" % (rec["sig"], rec["msg"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    known = load_known(a.prop)
    seen = {x for r in results for x in r.get("known", [])}
    evidence(a.prop, spec, a.tier, int(a.seed) if a.seed.isdigit() else 0, results, took, 0, jobs,
             {"known_findings_observed": sorted(seen)})
    for e in known:
        print("KNOWN-FINDING: property=%s %s%s" % (
            a.prop, e["what"], "" if e["id"] in seen else " (not observed in this run)"))
    errs = [r for r in results if r["status"] in ("harness", "walltimeout")]
    if errs:
        print("%d runs gave no answer; first: seed %s: %s" % (len(errs), errs[0]["seed"], errs[0]["msg"]))
        if len(errs) > len(results) // 100:
            return 2
    aborted = st.get("abort", 0)
    if not results or st.get("ok", 0) < max(1, len(results) // 2):
        print("too few conclusive runs: %s" % (st,))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
