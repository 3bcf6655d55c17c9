"""Runner: shards of generated cases per sub-check, shrinking, replay files, evidence.

A check module (checks/cNN.py) defines PROPERTY, RULE and SUBS, a list of ``Sub``.  A Sub has a
Hypothesis strategy for a *plain picklable case* and a function ``check(case, ctx)`` that raises
``Violation`` (or lets an exception of the code under test through ``lib``) when the property does
not hold for that case.  It returns None for a trivial case, or a hashable key (any object, its
repr is hashed) for a non-trivial one.
"""
import base64
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

from . import boot, cover

boot.ensure()

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402

warnings.simplefilter("ignore")
ROOT = boot.ROOT
SCRATCH_BASE = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None


RUN_TAG = "hx-%d-" % os.getpid()  # children inherit it: scratch directories of this run


class Violation(AssertionError):
    """The property does not hold on this case."""


class Trivial(Exception):
    """Raised by a check to say that the case tells nothing (counted as trivial)."""


class CaseTimeout(BaseException):
    pass


class Excluded(Exception):
    """The case is exactly a known finding (known_findings.json); counted, not judged."""


class Ctx:
    """Per-process context handed to checks: a private scratch directory and counters."""

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix=RUN_TAG, dir=SCRATCH_BASE)
        self.labels = {}
        self.dir = None
        self.tier = "quick"

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def fresh(self):
        """An empty directory for one case."""
        d = os.path.join(self.base, "c")
        if os.path.isdir(d):
            for e in os.scandir(d):
                if e.is_dir(follow_symlinks=False):
                    shutil.rmtree(e.path, ignore_errors=True)
                else:
                    os.unlink(e.path)
        else:
            os.mkdir(d)
        self.dir = d
        return d

    def file(self, name="f.h5"):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def lib(fn, *args, **kw):
    """Call the code under test where it must succeed."""
    try:
        return fn(*args, **kw)
    except (Violation, Trivial, Excluded):
        raise
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, "\n".join(tb[-12:]))) from e


def raises(exc, fn, *args, **kw):
    """Call the code under test where it must raise one of ``exc``; returns the exception."""
    try:
        r = fn(*args, **kw)
    except exc as e:
        return e
    except Exception as e:
        raise Violation(
            "raised %s (%s) instead of %s" % (type(e).__name__, e, exc)
        ) from e
    raise Violation("returned %s instead of raising %s" % (short(r), exc))


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # an object whose repr fails
        s = "<%s, repr failed: %s>" % (type(x), e)
    return s if len(s) <= n else s[: n - 20] + "...<%d chars>" % len(s)


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=8, case_timeout=120,
                 crashy=False, show=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.n = {"quick": quick, "thorough": thorough or quick * 20}
        self.shards, self.case_timeout, self.crashy, self.show = shards, case_timeout, crashy, show


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(sub, case, ctx):
    """Judge one case.  Returns (trivial?, key); raises Violation."""
    import gc

    ctx.fresh()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.case_timeout)
    try:
        key = sub.check(case, ctx)
        return key
    except Trivial:
        return None
    except Excluded:
        ctx.label("excluded-known-finding")
        return None
    except CaseTimeout:
        raise Violation("case did not finish within %d s" % sub.case_timeout) from None
    except (Violation, MemoryError, hypothesis.errors.HypothesisException):
        raise
    except Exception as e:
        # Nothing here can fail on a tree where the property holds (the checks are run over many
        # seeds there); an oracle that trips over a malformed result means the result is wrong.
        tb = traceback.format_exc().strip().splitlines()
        raise Violation("result cannot be judged: %s: %s\n%s"
                        % (type(e).__name__, e, "\n".join(tb[-14:]))) from e
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def seed_for(base, prop, sub, shard):
    h = hashlib.sha256(("%d|%s|%s|%d" % (base, prop, sub, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(prop, sub, shard, nshards, tier, seed, deadline, crashfile):
    """Runs in a child process.  Returns a picklable result dict."""
    total = sub.n[tier]
    n = total // nshards + (1 if shard < total % nshards else 0)
    ctx = Ctx()
    ctx.tier = tier
    res = dict(sub=sub.name, shard=shard, planned=n, evaluations=0, trivial=0, keys=set(),
               samples=[], labels={}, fail=None, inconclusive=False, error=None)
    last = {}
    try:
        if n == 0:
            return res

        def body(case):
            if time.time() > deadline:
                res["inconclusive"] = True
                return
            if sub.crashy:
                with open(crashfile, "wb") as f:
                    pickle.dump((sub.name, case), f)
            if not last:
                res["evaluations"] += 1
            try:
                blob = pickle.dumps(case)
            except Exception:
                blob = None
            try:
                key = run_one(sub, case, ctx)
            except Violation as e:
                last["case"], last["blob"], last["msg"] = case, blob, str(e)
                raise
            if last:
                return
            if key is None:
                res["trivial"] += 1
            else:
                h = hashlib.sha1(repr(key).encode("utf-8", "surrogatepass")).digest()[:10]
                if h not in res["keys"]:
                    res["keys"].add(h)
                    k = len(res["keys"])
                    if k in (3, 11, 40) or (k % 997 == 0 and len(res["samples"]) < 6):
                        res["samples"].append(
                            {"sub": sub.name,
                             "case": short(sub.show(case) if sub.show else case, 500)})

        test = hypothesis.given(sub.strategy())(body)
        test = settings(
            max_examples=n, deadline=None, database=None, print_blob=False,
            report_multiple_bugs=False, derandomize=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )(test)
        test = hypothesis.seed(seed_for(seed, prop, sub.name, shard))(test)
        try:
            import hypothesis.internal.conjecture.engine as eng

            eng.MAX_SHRINKING_SECONDS = 40 if tier == "quick" else 240
        except Exception:
            pass
        stop = cover.start()
        try:
            test()
        except BaseException as e:
            if last:
                res["fail"] = dict(msg=last["msg"], blob=last["blob"], text=short(last["case"], 4000),
                                   via=type(e).__name__)
            elif isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            else:
                res["error"] = traceback.format_exc()
        finally:
            stop()
    finally:
        res["labels"] = ctx.labels
        ctx.close()
    return res


def write_replay(prop, sub, fail):
    d = os.path.join(ROOT, "replays")
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tempfile.gettempdir()
    tag = hashlib.sha1((sub + fail["text"]).encode("utf-8", "surrogatepass")).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, sub, tag))
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=sub, message=fail["msg"], case_text=fail["text"],
                       case_pickle=None if fail["blob"] is None
                       else base64.b64encode(fail["blob"]).decode(),
                       replay="/opt/venv/bin/python /verif/run.py %s --replay %s" % (prop, path)),
                  f, indent=1)
    return path


class Pool:
    """Forks one child per task, at most ``width`` at a time; a dead child is reported."""

    def __init__(self, width):
        self.width = width

    def run(self, tasks, hard_deadline, on_result):
        pending, running = list(tasks), {}
        stop = False
        while (pending and not stop) or running:
            while pending and len(running) < self.width and not stop:
                tid, fn = pending.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    code = 0
                    try:
                        signal.signal(signal.SIGINT, signal.SIG_DFL)
                        os.setpgid(0, 0)
                        out = pickle.dumps(fn())
                        with os.fdopen(w, "wb") as f:
                            f.write(out)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    sys.stderr.flush()
                    os._exit(code)
                os.close(w)
                try:
                    os.setpgid(pid, pid)
                except OSError:
                    pass
                running[r] = (tid, pid, [])
            ready, _, _ = select.select(list(running), [], [], 1.0)
            if time.time() > hard_deadline and not ready:
                for r, (tid, pid, _) in list(running.items()):
                    self._kill(pid)
                    os.close(r)
                    on_result(tid, None, "timeout")
                running.clear()
                for tid, _ in pending:
                    on_result(tid, None, "timeout")
                return
            for r in ready:
                tid, pid, buf = running[r]
                data = os.read(r, 1 << 20)
                if data:
                    buf.append(data)
                    continue
                os.close(r)
                del running[r]
                _, status = os.waitpid(pid, 0)
                out = None
                if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0 and buf:
                    out = pickle.loads(b"".join(buf))
                    why = None
                else:
                    why = "child died: status %d" % status
                if on_result(tid, out, why):
                    stop = True
            if stop:
                for r, (tid, pid, _) in list(running.items()):
                    self._kill(pid)
                    os.close(r)
                running.clear()
                return

    @staticmethod
    def _kill(pid):
        for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                f()
                break
            except OSError:
                pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass


def load_findings(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return [x for x in json.load(f)["entries"] if x["property"] == prop]


def run_property(mod, tier, seed, only=None):
    prop = mod.PROPERTY
    t0 = time.time()
    budget = {"quick": 420, "thorough": 3 * 3600}[tier]
    deadline = t0 + budget
    subs = [s for s in mod.SUBS if only is None or s.name in only]
    scale = float(os.environ.get("HX_SCALE", "1"))
    if tier == "quick":
        scale *= getattr(mod, "QUICK_SCALE", 2)
    if scale != 1:
        for s in subs:
            s.n[tier] = max(1, int(s.n[tier] * scale))
    width = int(os.environ.get("HX_JOBS", "8"))
    crashdir = tempfile.mkdtemp(prefix="hxc-", dir=SCRATCH_BASE)
    tasks, meta = [], {}
    shard_mult = 1 if tier == "quick" else 4
    for s in subs:
        ns = max(1, min(s.shards * shard_mult, s.n[tier]))
        for i in range(ns):
            tid = (s.name, i)
            cf = os.path.join(crashdir, "%s-%d" % tid)
            meta[tid] = (s, cf)
            tasks.append((tid, lambda s=s, i=i, ns=ns, cf=cf:
                          run_shard(prop, s, i, ns, tier, seed, deadline, cf)))
    # interleave sub-checks so that the first failure shows early
    tasks.sort(key=lambda t: t[0][1])
    results, fails, errors = [], [], []

    def on_result(tid, out, why):
        s, cf = meta[tid]
        if out is None:
            if why != "timeout" and s.crashy and os.path.exists(cf):
                try:
                    with open(cf, "rb") as f:
                        name, case = pickle.load(f)
                    fails.append((s, dict(msg="the process died on this case (%s)" % why,
                                          blob=pickle.dumps(case), text=short(case, 4000),
                                          via="crash")))
                    return True
                except Exception:
                    pass
            errors.append("%s: %s" % (tid, why))
            return False
        results.append(out)
        if out["error"]:
            errors.append(out["error"])
        if out["fail"]:
            fails.append((s, out["fail"]))
            return True
        return False

    try:
        Pool(width).run(tasks, deadline + 240, on_result)
    finally:
        shutil.rmtree(crashdir, ignore_errors=True)
        # children killed mid-case leave their scratch directories behind
        cleanup_scratch()
    keys, samples, labels, per_sub = set(), [], {}, {}
    evaluations = trivial = 0
    for r in results:
        evaluations += r["evaluations"]
        trivial += r["trivial"]
        for k in r["keys"]:
            keys.add((r["sub"], k))
        samples += r["samples"]
        for k, v in r["labels"].items():
            labels[r["sub"] + ":" + k] = labels.get(r["sub"] + ":" + k, 0) + v
        p = per_sub.setdefault(r["sub"], dict(evaluations=0, trivial=0, distinct=0))
        p["evaluations"] += r["evaluations"]
        p["trivial"] += r["trivial"]
    for name, _ in keys:
        per_sub[name]["distinct"] += 1
    seen, picked = {}, []
    for x in samples:
        if seen.setdefault(x["sub"], 0) < 3:
            seen[x["sub"]] += 1
            picked.append(x)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(keys),
                            rule=mod.RULE, samples=picked or [{"none": "no case completed"}],
                            trivial=trivial, per_sub=per_sub,
                            classes=dict(sorted(labels.items())),
                            inconclusive_shards=sum(1 for r in results if r["inconclusive"])),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(fails))
    if only is None and not os.environ.get("HX_NOEVIDENCE"):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    for x in load_findings(prop):
        if x["kind"] == "finding":
            print("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
    print("%s %s seed=%d: %d cases, %d trivial, %d distinct non-trivial, %.1f s"
          % (prop, tier, seed, evaluations, trivial, len(keys), time.time() - t0))
    for s, f in fails:
        path = write_replay(prop, s.name, f)
        print("--- %s/%s\n%s\ncase: %s" % (prop, s.name, f["msg"], f["text"][:2000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    if fails:
        return 1
    if errors:
        for e in errors[:5]:
            print("HARNESS ERROR:", e, file=sys.stderr)
        return 2
    return 0


def cleanup_scratch():
    base = SCRATCH_BASE or tempfile.gettempdir()
    try:
        for e in os.scandir(base):
            if e.name.startswith(RUN_TAG) and e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, ignore_errors=True)
    except OSError:
        pass


def replay(mod, path):
    with open(path) as f:
        d = json.load(f)
    case = pickle.loads(base64.b64decode(d["case_pickle"]))
    sub = next(s for s in mod.SUBS if s.name == d["sub"])
    ctx = Ctx()
    try:
        print("case:", short(case, 3000))
        try:
            run_one(sub, case, ctx)
        except Violation as e:
            print(e)
            print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
            return 1
        print("holds")
        return 0
    finally:
        ctx.close()
