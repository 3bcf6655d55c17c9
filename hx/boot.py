"""Make Hypothesis importable for /opt/venv's Python without touching that environment.

The wheels are unpacked once into /verif/.deps (git-ignored).  Every check calls ``ensure`` itself,
so it works whether or not setup_cmd's output was kept.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"


def _unpack(target):
    tag = "cp%d%d" % sys.version_info[:2]
    for pat in ("hypothesis-*-%s-*.whl" % tag, "sortedcontainers-*.whl"):
        found = sorted(glob.glob(os.path.join(WHEELS, pat)))
        if not found:
            raise RuntimeError("no wheel matches " + pat)
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(target)


def ensure():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        try:
            tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
            _unpack(tmp)
            try:
                os.rename(tmp, DEPS)
            except OSError:  # another process was first
                shutil.rmtree(tmp, ignore_errors=True)
        except OSError:  # /verif not writable
            tmp = os.path.join(tempfile.gettempdir(), "hx-deps-%d" % os.getuid())
            if not os.path.isdir(os.path.join(tmp, "hypothesis")):
                _unpack(tmp)
            sys.path.insert(0, tmp)
            return
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__, "ready")
