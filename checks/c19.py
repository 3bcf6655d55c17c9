"""C19: operations of several threads on one File take effect one after another."""
import itertools
import sys
import threading
import types

import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, values as V
from hx.canon import canon
from hx.core import Sub, Violation, lib

PROPERTY = "C19"
QUICK_SCALE = 1
RULE = ("pairs: two threads with one or two operations each, the second one cutting in at every line of the File's methods "
        "in turn; schedule: 2-4 threads with up to 4 operations each (writes of one or several paths of several kinds of values, "
        "unsupported values among them, reads, deletion, in, iteration, len, flush, close, closed) on one File, run one "
        "line of the library at a time under a generated schedule (thread switches at any line, locks under control of "
        "the scheduler, so that a deadlock is seen), threads: the same operations by free threads with generated switch "
        "intervals. The history of calls and returns and the final contents of the file have to be linearizable "
        "against a sequential model (Wing-Gong search). separate: threads using Files and functions on files of their "
        "own have the results they have alone. Non-trivial: distinct histories in which operations of different "
        "threads overlapped.")

_Lock, _RLock = threading.Lock, threading.RLock


class Alien:
    pass


# ------------------------------------------------------------------ values and operations
def make(kind, i):
    """A value of one kind that tells which write stored it."""
    return {"int": lambda: 1000 + i, "str": lambda: "v%d" % i, "array": lambda: np.full(5, i, "i4"),
            "list": lambda: [i, "x", [i]], "dict": lambda: {"m": i, "n": np.float32(i)},
            "kv": lambda: {i: "a", (1, 2): i}, "big": lambda: np.full((50, 40), i, "f8"),
            "cells": lambda: np.array([i, "y", None, b"z"], object),
            "struct": lambda: np.array([(i, -i)] * 2, [("a", "i4"), ("b", "f8")]),
            "empty": lambda: np.zeros((0, i + 1)), "set": lambda: {i, i + 1}}[kind]()


KINDS = ["int", "str", "array", "list", "dict", "kv", "big", "cells", "struct", "empty", "set"]
PATHS = ["/a", "/b", "/g/a", "/g/b", "/g/h/c"]
DIRS = ["/g", "/g/h"]


@V.memo
def ops():
    path = st.sampled_from(PATHS)
    anyp = st.sampled_from(PATHS + PATHS + DIRS + ["/z"])
    kind = V.pick(st.sampled_from(KINDS), st.sampled_from(KINDS), st.sampled_from(KINDS), st.sampled_from(KINDS),
                  st.sampled_from(KINDS), st.sampled_from(KINDS), st.just("alien"))
    write = st.tuples(st.just("write"), st.tuples(path, kind), st.sampled_from(["write", "set"]))
    writes = st.tuples(st.just("writes"), st.lists(st.tuples(path, kind), min_size=1, max_size=4,
                                                   unique_by=lambda x: x[0]))
    read = st.tuples(st.just("read"), anyp, st.sampled_from(["read", "get"]))
    reads = st.tuples(st.just("reads"), st.lists(anyp, min_size=1, max_size=4))
    return V.pick(write, write, writes, writes, read, reads, reads, st.tuples(st.just("del"), anyp),
                  st.tuples(st.just("contains"), anyp), st.tuples(st.just("iter")), st.tuples(st.just("len")),
                  st.tuples(st.just("flush")),
                  V.pick(st.tuples(st.just("close")), st.tuples(st.just("closed")), st.tuples(st.just("len"))))


@V.memo
def programs():
    """Operations of every thread, with the values to write numbered."""
    return st.tuples(st.lists(V.pick(st.tuples(st.sampled_from(PATHS), st.sampled_from(KINDS))), max_size=3,
                              unique_by=lambda x: x[0]),
                     st.lists(st.lists(ops(), min_size=1, max_size=4), min_size=2, max_size=4)
                     ).map(number)


@V.memo
def focused():
    """Few operations of few kinds that may meet each other."""
    path = st.sampled_from(["/a", "/g/a", "/g/a"])
    kind = st.sampled_from(["int", "array", "alien", "list"])
    write = st.tuples(st.just("write"), st.tuples(path, kind), st.sampled_from(["write", "set"]))
    writes = st.tuples(st.just("writes"), st.just([("/g/a", "int"), ("/a", "list")]))
    reads = st.tuples(st.just("reads"), st.sampled_from([["/a", "/g/a"], ["/g/a", "/a"], ["/g", "/a"]]))
    read = st.tuples(st.just("read"), st.sampled_from(["/a", "/g/a", "/g"]), st.sampled_from(["read", "get"]))
    one = V.pick(write, writes, read, reads, st.tuples(st.just("del"), st.sampled_from(["/a", "/g/a", "/g"])),
                 st.tuples(st.just("contains"), st.sampled_from(["/a", "/g/a", "/g"])), st.tuples(st.just("iter")),
                 st.tuples(st.just("len")), st.tuples(st.just("flush")), st.tuples(st.just("close")),
                 st.tuples(st.just("closed")))
    return st.tuples(st.sampled_from([[("/a", "list")], [("/a", "int"), ("/g/a", "list")]]),
                     st.lists(V.pick(st.lists(one, min_size=1, max_size=1), st.lists(one, min_size=1, max_size=1),
                                     st.lists(one, min_size=2, max_size=2)), min_size=2, max_size=2)).map(number)


def number(p):
    ids = itertools.count(1)
    first, threads = p
    out = []
    for t in threads:
        l = []
        for o in t:
            if o[0] == "write":
                o = ("write", [(o[1][0], o[1][1], next(ids))], o[2])
            elif o[0] == "writes":
                o = ("writes", [(a, b, next(ids)) for a, b in o[1]], "writes")
            l.append(o)
        out.append(l)
    return [(a, b, next(ids)) for a, b in first], out


def value(kind, i):
    return Alien() if kind == "alien" else make(kind, i)


def perform(f, op):
    """Do one operation: ('ok', result) or ('error', kind of exception)."""
    k = op[0]
    try:
        if k == "write":
            p, kind, i = op[1][0]
            if op[2] == "set":
                f[p] = value(kind, i)
            else:
                f.write(value(kind, i), p)
            return "ok", None
        if k == "writes":
            f.writes({p: value(kind, i) for p, kind, i in op[1]})
            return "ok", None
        if k == "read":
            return "ok", f[op[1]] if op[2] == "get" else f.read(op[1])
        if k == "reads":
            return "ok", f.reads(list(op[1]))
        if k == "del":
            del f[op[1]]
            return "ok", None
        if k == "contains":
            return "ok", op[1] in f
        if k == "iter":
            return "ok", iter(f)
        if k == "len":
            return "ok", len(f)
        if k == "flush":
            f.flush()
            return "ok", None
        if k == "close":
            f.close()
            return "ok", None
        if k == "closed":
            return "ok", f.closed
    except KeyError:
        return "error", "KeyError"
    except OSError:
        return "error", "OSError"
    except (NotImplementedError, TypeError):
        return "error", "TypeError"
    except Exception as e:
        return "error", "%s: %s" % (type(e).__name__, e)
    raise AssertionError(op)


# ------------------------------------------------------------------ sequential model
GROUP = "group"


def step(state, op):
    """(new state, result) of an operation; state is a frozenset of (path, (kind, id) or GROUP), None if closed."""
    k = op[0]
    if k == "closed":
        return state, ("ok", state is None)
    if k == "close":
        return None, ("ok", None)
    if state is None:
        return state, ("error", "OSError")
    if k == "flush":
        return state, ("ok", None)
    d = dict(state)
    if k in ("write", "writes"):
        for p, kind, i in op[1]:
            parts = p.strip("/").split("/")
            for j in range(1, len(parts)):
                d.setdefault("/" + "/".join(parts[:j]), GROUP)
            if kind == "alien":
                return frozenset(d.items()), ("error", "TypeError")
            d[p] = kind, i
        return frozenset(d.items()), ("ok", None)
    if k == "read":
        return state, ("ok", look(d, op[1])) if op[1] in d else ("error", "KeyError")
    if k == "reads":
        if all(p in d for p in op[1]):
            return state, ("ok", tuple(look(d, p) for p in op[1]))
        return state, ("error", "KeyError")
    if k == "del":
        if op[1] not in d:
            return state, ("error", "KeyError")
        return frozenset(x for x in d.items() if x[0] != op[1] and not x[0].startswith(op[1] + "/")), ("ok", None)
    if k == "contains":
        return state, ("ok", op[1] in d)
    roots = sorted({p.split("/")[1] for p in d})
    if k == "iter":
        return state, ("ok", tuple(roots))
    if k == "len":
        return state, ("ok", len(roots))
    raise AssertionError(op)


_canon = {}


def look(d, p):
    """Canonical form of the value at a path."""
    v = d[p]
    if v != GROUP:
        if v not in _canon:
            _canon[v] = repr(canon(make(*v)))
        return _canon[v]
    return repr(canon(tree(d, p)))


def plain(p, x):
    return repr(canon(unstruct(p, x)))


def unstruct(p, x):
    """Groups that are not written as values are read as structured arrays."""
    if p in DIRS and isinstance(x, np.ndarray) and x.dtype.names is not None and x.shape == (1,):
        return {n: unstruct(p + "/" + n, x[n][0]) for n in sorted(x.dtype.names)}
    return x


def tree(d, p):
    if d[p] != GROUP:
        return make(*d[p])
    n = len(p) + 1
    return {q[n:]: tree(d, q) for q in sorted(d) if q.startswith(p + "/") and "/" not in q[n:]}


def seen(op, r):
    """A result in the terms of the model."""
    if r[0] != "ok":
        return r
    if op[0] == "read":
        return "ok", plain(op[1], r[1])
    if op[0] == "reads":
        return "ok", tuple(plain(p, x) for p, x in zip(op[1], r[1]))
    if op[0] == "iter":
        return "ok", tuple(sorted(r[1]))
    return r


# ------------------------------------------------------------------ scheduler
class Deadlock(BaseException):
    pass


class Sched:
    """Lets one of n threads run at a time, and switches among them as planned."""

    def __init__(self, n, plan):
        self.n, self.plan, self.at = n, plan, 0
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.state = ["ready"] * n  # or "blocked", "done"
        self.ids = {}
        self.finished = threading.Event()
        self.free = False
        self.deadlock = False
        self.switches = 0
        self.budget = self.next_plan()

    def next_plan(self):
        if self.at < len(self.plan):
            self.at += 1
            return list(self.plan[self.at - 1])
        return None

    def me(self):
        return self.ids.get(threading.get_ident())

    def ready(self):
        return [t for t in range(self.n) if self.state[t] == "ready"]

    def hand(self, me, t):
        self.gates[t].release()
        if t != me:
            self.gates[me].acquire()
        if self.deadlock:
            raise Deadlock

    def point(self, me, shallow):
        """A line of the library is about to run."""
        if self.free or self.budget is None:
            return
        kind, left, who = self.budget
        if kind == "shallow" and not shallow:
            return
        if left > 0:
            self.budget[1] -= 1
            return
        self.budget = self.next_plan()
        others = [t for t in self.ready() if t != me]
        if others:
            self.switches += 1
            t = others[who % len(others)]
            self.gates[t].release()
            self.gates[me].acquire()
            if self.deadlock:
                raise Deadlock

    def block(self, me):
        self.state[me] = "blocked"
        r = self.ready()
        if not r:
            self.lock_up()
            raise Deadlock
        self.gates[r[0]].release()
        self.gates[me].acquire()
        if self.deadlock:
            raise Deadlock

    def lock_up(self):
        self.deadlock = True
        self.finished.set()
        for g in self.gates:
            for _ in range(3):
                g.release()

    def end(self, me):
        self.state[me] = "done"
        r = self.ready()
        if r:
            self.gates[r[0]].release()
        elif all(s == "done" for s in self.state):
            self.finished.set()
        elif not self.deadlock:
            self.lock_up()

    def let_go(self):
        """Give up control: all threads run freely (some lock is not under control)."""
        self.free = True
        for g in self.gates:
            for _ in range(100):
                g.release()


current = None  # the scheduler in charge


class CoLock:
    """A lock under control of the scheduler."""

    reentrant = False

    def __init__(self):
        self.owner, self.count, self.waiting = None, 0, []
        self.real = _Lock()

    def acquire(self, blocking=True, timeout=-1):
        me = current.me() if current is not None else None
        who = threading.get_ident()
        if self.reentrant and self.owner == who:
            self.count += 1
            return True
        if me is None or current.free:
            if not self.real.acquire(blocking, timeout):
                return False
        else:
            while not self.real.acquire(False):
                if not blocking:
                    return False
                self.waiting.append(me)
                current.block(me)
        self.owner, self.count = who, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            self.real.release()
            if current is not None:
                for t in self.waiting:
                    if current.state[t] == "blocked":
                        current.state[t] = "ready"
            self.waiting = []

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class CoRLock(CoLock):
    reentrant = True


def controlled(fn):
    """Run fn with the locks it makes under control."""
    mods = [m for n, m in list(sys.modules.items()) if n == "hdf5storage" or n.startswith("hdf5storage.")]
    saved = []
    for m in [threading] + mods:
        for k, v in list(vars(m).items()):
            if v is _Lock or v is _RLock:
                saved.append((m, k, v))
                setattr(m, k, CoLock if v is _Lock else CoRLock)
    try:
        return fn()
    finally:
        for m, k, v in saved:
            setattr(m, k, v)


def codes(x, out):
    """Code objects of (the functions in) a module or class."""
    for v in list(vars(x).values()):
        v = getattr(v, "__func__", v)
        for g in (v, getattr(v, "fget", None), getattr(v, "fset", None), getattr(v, "__wrapped__", None)):
            if hasattr(g, "__code__") and g.__code__.co_filename.startswith(HERE):
                inner(g.__code__, out)
        if isinstance(v, type) and v.__module__.startswith("hdf5storage") and isinstance(x, types.ModuleType):
            codes(v, out)


def inner(c, out):
    out.add(c)
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            inner(k, out)


HERE = hs.__file__.rsplit("/", 1)[0] + "/"
SHALLOW, DEEP = set(), set()
for _m in [m for n, m in sorted(sys.modules.items()) if n == "hdf5storage" or n.startswith("hdf5storage.")]:
    codes(_m, DEEP)
codes(hs.File, SHALLOW)
DEEP -= SHALLOW
MON = sys.monitoring
TOOL = 4


def on_line(code, line):
    if current is not None:
        me = current.me()
        if me is not None:
            current.point(me, code in SHALLOW)


def listen(plan, on):
    """Have on_line called for the lines the plan is about."""
    if on:
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, "hx")
            MON.register_callback(TOOL, MON.events.LINE, on_line)
    e = MON.events.LINE if on else 0
    for c in SHALLOW:
        MON.set_local_events(TOOL, c, e)
    if any(x[0] == "any" for x in plan):
        for c in DEEP:
            MON.set_local_events(TOOL, c, e)


# ------------------------------------------------------------------ running
class Worker:
    def __init__(self, f, ops, clock, hist):
        self.f, self.ops, self.clock, self.hist = f, ops, clock, hist

    def work(self):
        for op in self.ops:
            a = next(self.clock)
            r = perform(self.f, op)
            self.hist.append((a, next(self.clock), op, r))


def run_scheduled(f, threads, plan):
    global current
    clock, hist = itertools.count(), []
    sched = Sched(len(threads), plan)

    def body(me):
        sched.ids[threading.get_ident()] = me
        sched.gates[me].acquire()
        try:
            w = Worker(f, threads[me], clock, hist)
            w.work()
        except Deadlock:
            pass
        finally:
            sched.end(me)

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(threads))]
    current = sched
    listen(plan, True)
    try:
        for t in ts:
            t.start()
        sched.gates[0].release()
        if not sched.finished.wait(25):
            sched.let_go()
            if not sched.finished.wait(25):
                raise Violation("the threads do not finish")
        if sched.deadlock:
            raise Violation("deadlock: every thread waits for a lock; done so far: %s" % (core.short(hist, 1500),))
        for t in ts:
            t.join(20)
    finally:
        listen(plan, False)
        current = None
    return hist, sched.switches


def run_free(f, threads, interval):
    clock, hist = itertools.count(), []
    gate = threading.Barrier(len(threads))

    def body(i):
        w = Worker(f, threads[i], clock, hist)
        gate.wait(20)
        w.work()

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(threads))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
            if t.is_alive():
                raise Violation("the threads do not finish")
    finally:
        sys.setswitchinterval(old)
    return hist


FINAL = [("iter",), ("len",)] + [("contains", p) for p in PATHS + DIRS] + [("read", p, "read") for p in PATHS + DIRS]


SHORT = [("iter",), ("contains", "/g/a"), ("read", "/a", "read"), ("read", "/g", "read")]


def judge(first, f, fname, kw, threads, hist, live=True):
    if len(hist) != sum(map(len, threads)):
        raise Violation("a thread died: %d of %d operations returned" % (len(hist), sum(map(len, threads))))
    hist = [(a, b, op, seen(op, r)) for a, b, op, r in hist]
    final = []
    ops = FINAL if live else SHORT
    if live and not f.closed:
        for op in FINAL:
            final.append((op, seen(op, perform(f, op))))
    f.close()
    after = []
    with lib(hs.File, fname, **kw) as g:
        for op in ops:
            after.append((op, seen(op, perform(g, op))))
    if final and final != after:
        raise Violation("the File and the file differ at the end: %s" % [(x, y) for x, y in zip(final, after) if x != y])
    initial = frozenset()
    for x in first:
        initial, r = step(initial, ("write", [x]))
    if not linearizable((False, initial), hist, after, step2):
        raise Violation("no order of the operations explains what they returned and left:\n%s\nfinally %s"
                        % ("\n".join(core.short(h, 300) for h in sorted(hist)), core.short(after, 1500)))
    return any(a[0] < b[1] and b[0] < a[1] for a, b in itertools.combinations(hist, 2))


def step2(state, op):
    """As step; the contents are kept when the File is closed."""
    closed, d = state
    if op == ("reopen",):
        return (False, d), None
    s, r = step(None if closed else d, op)
    return ((True, d) if s is None else (False, s)), r


def linearizable(initial, hist, final, step):
    """Whether some order of the operations consistent with real time explains their results.

    hist holds (start, end, op, result); final is a list of (op, result) done in the end."""
    hist = sorted(hist, key=lambda h: h[:2])
    n = len(hist)
    full = (1 << n) - 1
    before = [sum(1 << j for j in range(n) if hist[j][1] < hist[i][0]) for i in range(n)]
    todo, done = [(0, initial)], set()
    while todo:
        mask, state = todo.pop()
        if (mask, state) in done:
            continue
        done.add((mask, state))
        if mask == full:
            s, _ = step(state, ("reopen",))
            for op, r in final:
                s, want = step(s, op)
                if want != r:
                    break
            else:
                return True
            continue
        for i in range(n):
            if not mask >> i & 1 and before[i] & ~mask == 0:
                s, want = step(state, hist[i][2])
                if want == hist[i][3]:
                    todo.append((mask | 1 << i, s))
    return False


def prepare(ctx, first, kw):
    fname = ctx.file("t.mat")
    f = lib(hs.File, fname, writable=True, **kw)
    for p, kind, i in first:
        lib(f.write, make(kind, i), p)
    return f, fname


def check_schedule(case, ctx):
    (first, threads), plan, kw = case
    f, fname = controlled(lambda: prepare(ctx, first, kw))
    hist, switches = run_scheduled(f, threads, plan)
    ctx.label("switches>0" if switches else "no switch")
    if judge(first, f, fname, kw, threads, hist):
        return repr(case)


def check_pairs(case, ctx):
    """The second thread cuts in at every line of the methods the first one runs."""
    (first, threads), kw = case
    any_ = False
    for gap in range(60):
        ctx.fresh()
        f, fname = controlled(lambda: prepare(ctx, first, kw))
        hist, switches = run_scheduled(f, threads, [("shallow", gap, 0)])
        any_ |= judge(first, f, fname, kw, threads, hist, gap % 10 == 0)
        if not switches:
            break
    return repr(case) if any_ else None


def check_threads(case, ctx):
    (first, threads), interval, kw = case
    f, fname = prepare(ctx, first, kw)
    hist = run_free(f, threads, interval)
    if judge(first, f, fname, kw, threads, hist):
        return repr(case)


# ------------------------------------------------------------------ files of their own
def alone(fname, ops, kw, style):
    """Results of the operations on a file of its own, and its contents."""
    out = []
    hs.write(0, "/zero", filename=fname, **kw)
    if style == "functions":
        for op in ops:
            k = op[0]
            try:
                if k in ("write", "writes"):
                    hs.writes({p: value(kind, i) for p, kind, i in op[1]}, filename=fname, **kw)
                    out.append(("ok", None))
                elif k == "read":
                    out.append(seen(op, ("ok", hs.read(op[1], filename=fname, **kw))))
                elif k == "reads":
                    out.append(seen(op, ("ok", hs.reads(list(op[1]), filename=fname, **kw))))
                else:
                    hs.savemat(fname, {"m": 3}, appendmat=False)
                    out.append(("ok", sorted(hs.loadmat(fname, appendmat=False))))
            except Exception as e:
                out.append(("error", type(e).__name__))
    else:
        with hs.File(fname, writable=True, **kw) as f:
            for op in ops:
                out.append(seen(op, perform(f, op)))
    with hs.File(fname, **kw) as g:
        out.append([(n, repr(canon(g[n]))) for n in sorted(g)])
    return out


def check_separate(case, ctx):
    progs, interval = case
    want = []
    for i, (ops_, kw, style) in enumerate(progs):
        hs.make_new_default_marshaller_collection()
        want.append(lib(alone, ctx.file("alone%d.mat" % i), ops_, kw, style))
    hs.make_new_default_marshaller_collection()
    got = [None] * len(progs)
    gate = threading.Barrier(len(progs))

    def body(i):
        gate.wait(20)
        ops_, kw, style = progs[i]
        try:
            got[i] = alone(ctx.file("f%d.mat" % i), ops_, kw, style)
        except Exception as e:
            got[i] = "%s: %s" % (type(e).__name__, e)

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(progs))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
            if t.is_alive():
                raise Violation("the threads do not finish")
    finally:
        sys.setswitchinterval(old)
    for i in range(len(progs)):
        if got[i] != want[i]:
            raise Violation("thread %d with a file of its own had %s, alone it has %s"
                            % (i, core.short(got[i], 1500), core.short(want[i], 1500)))
    return repr(case)


# ------------------------------------------------------------------ strategies
KW = [dict(matlab_compatible=False, delete_unused_variables=True),
      dict(matlab_compatible=False, delete_unused_variables=True, group_for_references="/refs"),
      dict(matlab_compatible=True, action_for_matlab_incompatible="ignore"),
      dict(matlab_compatible=False, delete_unused_variables=True, compress=True, compress_size_threshold=0)]


@V.memo
def plans():
    gap = V.pick(st.integers(0, 12), st.integers(0, 40), st.integers(0, 400), st.integers(0, 3000))
    s = V.pick(st.tuples(st.just("shallow"), st.integers(0, 15), st.just(0)),
               st.tuples(st.just("shallow"), V.pick(st.integers(0, 6), st.integers(0, 25), st.integers(0, 60)),
                         st.integers(0, 3)),
               st.tuples(st.just("any"), gap, st.integers(0, 3)))
    return st.lists(s, min_size=1, max_size=12)


@V.memo
def schedule():
    return st.tuples(programs(), plans(), st.sampled_from(KW))


INTERVALS = [1e-6, 1e-6, 5e-6, 2e-5, 1e-4, 1e-3]


@V.memo
def threads():
    return st.tuples(programs(), st.sampled_from(INTERVALS), st.sampled_from(KW))


@V.memo
def separate():
    def shape(p, kws, styles):
        return [(t, kws[i % len(kws)], styles[i % len(styles)]) for i, t in enumerate(p[1])]
    return st.tuples(st.builds(shape, programs(), st.lists(st.sampled_from(KW), min_size=4, max_size=4),
                               st.lists(st.sampled_from(["file", "functions"]), min_size=4, max_size=4)),
                     st.sampled_from(INTERVALS))


@V.memo
def pairs():
    return st.tuples(focused(), st.sampled_from(KW[:3]))


SUBS = [
    Sub("pairs", pairs, check_pairs, 500, 40000, case_timeout=100),
    Sub("schedule", schedule, check_schedule, 3000, 150000, case_timeout=100),
    Sub("threads", threads, check_threads, 1500, 60000, case_timeout=100),
    Sub("separate", separate, check_separate, 800, 40000, case_timeout=100),
]
