"""plant.py SPEC.py [ID...]: turn bug specs into /verif/seeded/<id>/ after confirming them in a copy.

SPEC.py defines BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)].
plant.py --check ID...: run the property's check against the planted bug (in a copy, through HX_SRC).
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
SEEDED = "/verif/seeded"
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    return d


def env(d):
    e = dict(os.environ, PYTHONPATH=d + "/src:/opt/vp/plugins", PYTHONDONTWRITEBYTECODE="1")
    return e


def tests(d):
    x = os.path.join(d, "junit.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "vp_fixed_seed", "-p", "no:cacheprovider",
                    "--timeout=60", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=d, env=env(d),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
    bad = []
    n = 0
    for c in ET.parse(x).iter("testcase"):
        n += 1
        if any(k.tag in ("failure", "error") for k in c):
            bad.append(c.get("name"))
    return n, bad


def demo(d, src):
    p = subprocess.run(["bash", os.path.join(src, "demo.sh")], cwd=d, env=env(d), timeout=300,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout[-600:]


def make(b):
    out = []
    d = copy()
    try:
        new = os.path.join(d, "seedtmp")
        os.mkdir(new)
        with open(new + "/demo.py", "w") as f:
            f.write(b["demo"].lstrip("\n"))
        with open(new + "/demo.sh", "w") as f:
            f.write(DEMO_SH)
        os.chmod(new + "/demo.sh", 0o755)
        with open(new + "/meta.json", "w") as f:
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), f, indent=1)
        rc, o = demo(d, new)
        if rc != 0:
            return b["id"], "demo fails on the unchanged tree: " + o
        p = os.path.join(d, "src/hdf5storage", b["file"])
        s = open(p).read()
        for old, rep in b["edits"]:
            if s.count(old) != 1:
                return b["id"], "%d matches of %r" % (s.count(old), old)
            s = s.replace(old, rep)
        open(p, "w").write(s)
        diff = subprocess.run(["git", "-C", d, "diff", "--", "src"], stdout=subprocess.PIPE, text=True).stdout
        with open(new + "/patch.diff", "w") as f:
            f.write(diff)
        rc, o = demo(d, new)
        if rc == 0:
            return b["id"], "demo passes with the patch"
        out.append("demo: " + (o.strip().splitlines() or [""])[-1][:150])
        n, bad = tests(d)
        if bad or n < 2450:
            return b["id"], "tests: %d run, failing %s" % (n, bad[:6])
        t = os.path.join(SEEDED, b["id"])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(new, t)
        out.append("kept")
        return b["id"], "; ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(i, jobs):
    d = copy()
    try:
        t = os.path.join(SEEDED, i)
        p = json.load(open(t + "/meta.json"))["property"]
        r = subprocess.run(["git", "-C", d, "apply", t + "/patch.diff"])
        if r.returncode:
            return i, "patch does not apply"
        e = dict(os.environ, HX_SRC=d + "/src", HX_JOBS=str(jobs), HX_EVIDENCE="")
        r = subprocess.run([PY, os.environ.get("HX_RUN", "/verif/run.py"), p, "--tier", "quick", "--noevidence"], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=1500)
        msg = [x for x in r.stdout.splitlines() if x.startswith("---")]
        k = r.stdout.find("---")
        return i, "%s rc=%d %s" % (p, r.returncode, " | ".join(r.stdout[k:k + 300].splitlines()[:3])
                                   if r.returncode else "MISSED")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for i, m in ex.map(lambda i: check(i, 4), ids):
                print(i, m, flush=True)
        return
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(make, bugs):
            print(i, m, flush=True)


main()
