#!/usr/bin/env python3
"""Development tool: confirm planted bugs and run the checks against them, in scratch copies.

usage: seedcheck.py [--no-check] [--all-checks] ID...   (no ID: all)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode(errors="replace")


def tests(copy):
    out = os.path.join(copy, ".junit.xml")
    rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120",
                "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + out, "tests"], copy)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not [x for x in c if x.tag in ("failure", "error", "skipped")]:
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    os.unlink(out)
    return [s for s in STABLE if s not in ok], o


def main():
    args = sys.argv[1:]
    nocheck = "--no-check" in args
    allc = "--all-checks" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    bad = 0
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="seed.")
        copy = os.path.join(tmp, "repo")
        dd = os.path.join(tmp, "demo")
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        subprocess.check_call(["cp", "-a", "/repo", copy])
        try:
            t = time.time()
            msg = []
            rc, o = sh(["bash", os.path.join(dd, "demo.sh")], copy, timeout=300)
            t1 = time.time() - t
            if rc != 0:
                msg.append("DEMO FAILS UNPATCHED rc=%d\n%s" % (rc, o[-1500:]))
            rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
            if rc:
                msg.append("PATCH DOES NOT APPLY\n" + o)
            failed, o = tests(copy)
            if failed:
                msg.append("TESTS FAIL: %s" % failed)
            rc, o = sh(["bash", os.path.join(dd, "demo.sh")], copy, timeout=300)
            if rc == 0:
                msg.append("DEMO PASSES PATCHED\n" + o[-500:])
            res = []
            if not nocheck:
                props = [meta["property"]]
                if allc:
                    props = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
                for p in props:
                    rc, o = sh([PY, "-m", "dst.check", p, "--no-min"], VERIF, {"DST_REPO": copy})
                    sig = [l for l in o.splitlines() if l.startswith("violated:")]
                    n = [l for l in o.splitlines() if l.startswith("property")]
                    res.append("%s rc=%d %s %s" % (p, rc, sig[0][:160] if sig else "", n[0] if n else o[-300:])
                               if rc or not allc else "")
            print("%-28s %s demo %.1fs  %s" % (i, "CONFIRMED" if not msg else "BAD", t1, " || ".join(x for x in res if x)))
            for m in msg:
                bad = 1
                print("   ", m)
            sys.stdout.flush()
        finally:
            shutil.rmtree(tmp)
    return bad


sys.exit(main())
