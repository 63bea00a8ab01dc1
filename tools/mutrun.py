#!/usr/bin/env python3
"""Development tool: run all checks, shortened, against mutants.

mutrun.py IN.jsonl OUT.jsonl [RUNS]      (IN: output of mutants.py tests)
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
PY = "/opt/venv/bin/python"


def inner(runs, cpu):
    os.sched_setaffinity(0, {cpu})
    import gc
    import time
    now = time.monotonic
    t0 = now()
    from dst import boot, run as R
    boot.boot()
    from dst.props import PROPS
    from dst.check import pick_scen, run_seed
    gc.collect()
    gc.freeze()
    first = {}
    odd = {}
    n = 0
    chunk = 20
    wall = float(os.environ.get("MUT_WALL", "600"))
    for start in range(0, runs, chunk):
        for p, spec in PROPS.items():
            if p in first:
                continue
            for i in range(start, start + chunk):
                r = R.fork_run(p, pick_scen(spec, i), run_seed("1", p, i), wall=20)
                n += 1
                if r["status"] == "violation":
                    first[p] = (i, r["sig"], r["msg"][:160])
                    break
                if r["status"] != "ok":
                    odd[p] = odd.get(p, 0) + 1
                    if odd[p] == 1:
                        odd[p + "!"] = (r.get("msg") or "")[-200:]
                    if odd[p] > 5 and odd[p] > i / 2:
                        break
            if now() - t0 > wall:
                break
        if first or now() - t0 > wall:
            break
        if len([p for p in odd if not p.endswith("!")]) > 20:
            break
    print("RESULT " + json.dumps({"first": first, "odd": odd, "n": n, "t": round(now() - t0, 1)}))


def outer(inp, out, runs):
    sys.path.insert(0, HERE)
    import mutants
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    ms = [m for m in map(json.loads, open(inp)) if m.get("pass") and m["id"] not in done]
    import queue
    cpus = queue.Queue()
    for c in os.environ.get("CPUS", "0,1,2,3,4,5,6,7").split(","):
        cpus.put(int(c))
    nj = cpus.qsize()
    fo = open(out, "a")

    def one(m):
        cpu = cpus.get()
        tmp, c = mutants.make(m)
        try:
            o = subprocess.run([PY, os.path.abspath(__file__), "--inner", str(runs), str(cpu)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=1500, cwd=VERIF,
                               env=dict(os.environ, DST_REPO=c)).stdout.decode()
            r = [l for l in o.splitlines() if l.startswith("RESULT ")]
            return m, json.loads(r[0][7:]) if r else {"first": {}, "odd": {"crash": o[-600:]}, "n": 0}
        except subprocess.TimeoutExpired:
            return m, {"first": {}, "odd": {"timeout": 1}, "n": 0}
        finally:
            shutil.rmtree(tmp)
            cpus.put(cpu)
    with ThreadPoolExecutor(nj) as ex:
        for f in as_completed([ex.submit(one, m) for m in ms]):
            m, r = f.result()
            fo.write(json.dumps({"id": m["id"], "file": m["file"], "line": m["line"], "what": m["what"], **r}) + "\n")
            fo.flush()


if __name__ == "__main__":
    if sys.argv[1] == "--inner":
        inner(int(sys.argv[2]), int(sys.argv[3]))
    else:
        outer(sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 200)
