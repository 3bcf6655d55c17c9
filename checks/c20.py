"""C20: what is flushed or closed is on disk, and Files open and close as documented."""
import calendar
import os
import re
import shutil
import signal
import time

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from checks import c19
from hx import core, values as V
from hx.canon import canon, diff
from hx.core import Sub, Violation, lib

PROPERTY = "C20"
QUICK_SCALE = 1
RULE = ("open: every kind of initial file (none, HDF5 with and without user block, written by the library or MATLAB-like, "
        "not HDF5, damaged, directory) opened by File and the functions with every combination of modes and options, "
        "against the documented table (error or not, contents, user block, header, bytes of everything that has to stay); "
        "history: generated histories of writes, deletions, failures, flushes, closings (by close, with, an exception, "
        "dropping the File, the functions) and reopenings against a model, with a copy of the file's bytes taken at the "
        "instant flush or close returns; values: generated values of all types, flushed and compared between the File and "
        "such a copy; kill: the same in a process of its own that is killed right after a flush. Non-trivial: distinct "
        "cases that wrote, flushed or refused something.")


# ------------------------------------------------------------------ open
def bytes_of(f):
    with open(f, "rb") as h:
        return h.read()


def initial(kind, f, ctx):
    """Make the initial file; returns what is in it (None if it isn't HDF5)."""
    if kind == "missing":
        return None
    if kind == "dangling":
        os.symlink(ctx.file("target.mat"), f)
        return None
    if kind.startswith("link-"):
        t = ctx.file("target.mat")
        out = initial(kind[5:], t, ctx)
        os.symlink(t, f)
        return out
    if kind == "directory":
        os.mkdir(f)
        return None
    if kind == "text":
        with open(f, "wb") as h:
            h.write(b"something precious\n" * 30)
        return None
    if kind == "mat5":
        with open(f, "wb") as h:
            h.write(b"MATLAB 5.0 MAT-file, Platform: GLNXA64".ljust(124) + b"\x00\x01IM" + b"\x0e\0\0\0\x30\0\0\0" + bytes(48))
        return None
    if kind.startswith("lib"):
        lib(hs.writes, {"/a": 1, "/b": [1, "x"], "/g/c": np.arange(5.0)}, filename=f, matlab_compatible=kind == "lib-matlab")
    else:
        ub = int(kind.split("-")[1])
        with h5py.File(f, "w", userblock_size=ub) as h:
            if not kind.endswith("bare"):
                h["a"] = 1
                h.create_group("g")["c"] = np.arange(5.0)
            h.attrs["note"] = "precious"
        if ub:
            with open(f, "r+b") as h:
                h.write((b"precious " * ub)[:ub])
    if kind.endswith("cut"):
        b = bytes_of(f)
        with open(f, "wb") as h:
            h.write(b[:len(b) - 100])
        return None
    return contents(f)


def contents(f):
    """Everything in the file, as h5py tells it."""
    out = {}

    def visit(name, o):
        out[name] = (type(o).__name__, sorted((k, repr(o.attrs[k])) for k in o.attrs),
                     (o.dtype.str, o.shape, repr(o[()])[:300] if o.dtype.kind != "O" else "") if isinstance(o, h5py.Dataset)
                     else sorted(o))
    with h5py.File(f, "r") as h:
        h.visititems(visit)
        out["/"] = sorted((k, repr(h.attrs[k])) for k in h.attrs), sorted(h)
    return out


INITIAL = ["missing", "directory", "text", "mat5", "lib-matlab", "lib-plain", "h5-0", "h5-512", "h5-1024", "h5-4096",
           "h5-0-cut", "h5-512-cut", "dangling", "link-lib-matlab", "link-h5-0", "link-text", "h5-0-bare", "h5-512-bare"]
HEADER = re.compile(rb"MATLAB 7\.3 MAT-file, Platform: hdf5storage [^ ,]+, Created on: (Mon|Tue|Wed|Thu|Fri|Sat|Sun) "
                    rb"(Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) (\d\d) (\d\d):(\d\d):(\d\d) (\d{4}) "
                    rb"HDF5 schema 1\.00 \. *\0{8}\x00\x02IM\Z", re.S)


def check_header(b, t0, t1):
    m = HEADER.match(b)
    if not m or len(b) != 128:
        raise Violation("no valid MATLAB header: %r" % b)
    months = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
    days = "Mon Tue Wed Thu Fri Sat Sun".split()
    t = calendar.timegm((int(m[7]), months.index(m[2].decode()) + 1, int(m[3]), int(m[4]), int(m[5]), int(m[6])))
    if not t0 - 2 <= t <= t1 + 2 or time.gmtime(t).tm_wday != days.index(m[1].decode()):
        raise Violation("the time of the MATLAB header is wrong: %r" % b)


def handles():
    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL)


def check_open(case, ctx):
    kind, how, writable, truncate, invalid, matlab, as_options, bad = case
    f = ctx.file("x.mat")
    before = initial(kind, f, ctx)
    raw = bytes_of(f) if os.path.isfile(f) else None
    if how in ("write", "writes", "savemat"):
        writable = True
    elif how in ("read", "reads"):
        writable = truncate = invalid = False
    if how == "savemat":
        matlab, as_options = True, False
    kw = {}
    if how in ("File", "with"):
        kw.update(writable=writable)
    if how not in ("read", "reads"):
        kw.update(truncate_existing=truncate, truncate_invalid_matlab=invalid)
    if bad:
        kw[bad[0]] = bad[1]
        if bad[0] == "options+":
            del kw["options+"]
            kw.update(options=hs.Options(matlab_compatible=matlab), matlab_compatible=matlab)
        if how not in ("File", "with"):
            kw.pop("writable", None)
    elif how != "savemat":
        if as_options:
            kw["options"] = hs.Options(matlab_compatible=matlab)
        else:
            kw["matlab_compatible"] = matlab
    links = os.path.islink(f)
    if how == "read" and kind.endswith("bare"):
        raise core.Trivial
    t0 = time.time()
    n = handles()
    wrote = {}
    got = None
    try:
        if how == "File":
            g = hs.File(f, **kw)
            if g.closed:
                raise Violation("a new File is closed")
            got = sorted(g)
            g.close()
            if not g.closed:
                raise Violation("the File is not closed")
            g.close()
        elif how == "with":
            with hs.File(f, **kw) as g:
                got = sorted(g)
                if g.closed:
                    raise Violation("a File is closed in its with block")
            if not g.closed:
                raise Violation("the File is not closed after its with block")
        elif how == "read":
            hs.read("/a", filename=f, **kw)
        elif how == "reads":
            hs.reads([] if kind.endswith("bare") else ["/a", "/g/c"], filename=f, **kw)
        elif how == "write":
            wrote = {"/new/z": [1, 2.5, "three"]}
            hs.write(wrote["/new/z"], "/new/z", filename=f, **kw)
        elif how == "writes":
            wrote = {"/new/z": [1, 2.5, "three"], "/y": {"k": 1}}
            hs.writes(wrote, filename=f, **kw)
        else:
            wrote = {"/y": 3.5, "/x": "text"}
            hs.savemat(f, {"y": 3.5, "x": "text"}, appendmat=False, store_python_metadata=True, **kw)
        result = None
    except Violation:
        raise
    except Exception as e:
        result = e
    t1 = time.time()
    if handles() != n:
        raise Violation("%d HDF5 objects are left open" % (handles() - n))
    if os.path.islink(f) != links:
        raise Violation("the symbolic link was replaced")
    kind = kind[5:] if kind.startswith("link-") else kind
    # What has to happen.
    exists = kind not in ("missing", "dangling", "directory")
    if bad:
        expect = bad[2]
    elif kind == "directory":
        expect = OSError
    elif not writable:
        expect = None if before is not None else OSError
    elif not exists or truncate:
        expect = None
    else:
        expect = None if before is not None else OSError
    if (result is None) != (expect is None) or (expect is not None and not isinstance(result, expect)):
        raise Violation("raised %r, expected %s" % (result, expect))
    if expect is not None:
        if (bytes_of(f) if os.path.isfile(f) else None) != raw:
            raise Violation("the refused opening changed the file")
        if not exists and os.path.isdir(f) != (kind == "directory"):
            raise Violation("the refused opening made something")
        return repr(case)
    if not writable:
        if bytes_of(f) != raw:
            raise Violation("opening for reading changed the file")
        return repr(case)
    with h5py.File(f, "r") as h:
        ub = h.userblock_size
    old_ub = 0
    if before is not None:
        old_ub = {"lib-matlab": 512, "lib-plain": 512}.get(kind) if kind.startswith("lib") else int(kind.split("-")[1])
    anew = not exists or truncate or (matlab and invalid and old_ub < 128)
    if anew:
        if ub < 512:
            raise Violation("the new file has a user block of %d" % ub)
        kept = {}
        if got not in (None, []):
            raise Violation("a new file has members: %s" % got)
    else:
        if ub != old_ub:
            raise Violation("the user block was %d, is %d" % (old_ub, ub))
        kept = before
        if got is not None and got != sorted(x for x in before["/"][1] if x != "#refs#"):
            raise Violation("members %s of the File, in the file %s" % (got, before["/"][1]))
    block = bytes_of(f)[:ub]
    if matlab and ub >= 128:
        check_header(block[:128], t0, t1)
        rest = block[128:]
        want = bytes(ub - 128) if anew else raw[128:ub]
    else:
        rest, want = block, bytes(ub) if anew else raw[:ub]
    if rest != want:
        raise Violation("the user block is %r..., expected %r..." % (rest[:200], want[:200]))
    now = contents(f)
    for k, v in kept.items():
        if k == "/":
            if v[0] != now["/"][0] or set(v[1]) - set(now["/"][1]):
                raise Violation("the root was %s, is %s" % (v, now["/"]))
        elif k != "#refs#" and now.get(k) != v:
            raise Violation("%s was %s, is %s" % (k, v, now.get(k)))
    for k in set(now) - set(kept):
        top = "/" + k.split("/")[0]
        if k != "/" and not any(top == "/" + p.split("/")[1] for p in wrote) and not k.startswith("#refs#"):
            raise Violation("%s is new" % k)
    for p, v in wrote.items():
        d = diff(canon(lib(hs.read, p, filename=f)), canon(v))
        if d:
            raise Violation("%s reads differently: %s" % (p, d))
    return repr(case)


@V.memo
def opens():
    bad = V.pick(st.none(), st.none(), st.none(), st.none(), st.sampled_from([
        ("truncate_existing", 1, TypeError), ("truncate_existing", None, TypeError), ("truncate_invalid_matlab", 1, TypeError),
        ("truncate_invalid_matlab", "yes", TypeError), ("writable", "r", TypeError), ("options", {}, TypeError),
        ("options+", 0, ValueError)]))

    def fix(t):
        kind, how, w, t_, i, m, o, b = t
        if how in ("read", "reads", "savemat") or (b and b[0] == "writable" and how not in ("File", "with")):
            b = None
        return kind, how, w, t_, i, m, o, b
    return st.tuples(st.sampled_from(INITIAL), st.sampled_from(["File", "File", "with", "with", "read", "reads", "write", "writes",
                                                                "savemat"]),
                     st.booleans(), st.booleans(), st.booleans(), st.booleans(), st.booleans(), bad).map(fix)


# ------------------------------------------------------------------ histories
KW = c19.KW
SYNC = ["flush", "flush", "close", "exit", "raise", "raise", "del", "function", "flush-twice"]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


BOOMS = [Boom, OSError, KeyError, ValueError, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, BaseBoom,
         RuntimeError, NotImplementedError, MemoryError, AttributeError, TypeError, PermissionError, FileNotFoundError,
         AssertionError, UnicodeError, ArithmeticError, EOFError, hs.exceptions.TypeNotMatlabCompatibleError]


def on_disk(f, ctx, model, kw, what):
    """A copy of the bytes of the file as they are now holds what the model does."""
    g = ctx.file("copy.h5")
    shutil.copyfile(f, g)
    judge(g, model, kw, what)
    os.unlink(g)


def judge(g, model, kw, what):
    def valid(h):
        h.visititems(lambda n, o: None)
    try:
        with h5py.File(g, "r") as h:
            valid(h)
    except Exception as e:
        raise Violation("%s: the file is not valid: %s: %s" % (what, type(e).__name__, e)) from e
    with lib(hs.File, g, **kw) as h:
        for op in c19.FINAL:
            s, want = c19.step(model, op)
            got = c19.seen(op, c19.perform(h, op))
            if got != want:
                raise Violation("%s: %s gives %s, written was %s" % (what, op, core.short(got), core.short(want)))


def played(f, model, op, ctx):
    model, want = c19.step(model, op)
    got = c19.seen(op, c19.perform(f, op))
    if got != want:
        raise Violation("%s gave %s, expected %s" % (op, core.short(got), core.short(want)))
    return model


def check_history(case, ctx):
    segments, kw = case
    fname = ctx.file("t.mat")
    model = frozenset()
    n0 = handles()
    done = 0
    for i, (ops, sync, reopen) in enumerate(segments):
        if sync == "function":
            for op in ops:
                if op[0] not in ("write", "writes"):
                    continue
                model, want = c19.step(model, op)
                try:
                    d = {p: c19.value(k, j) for p, k, j in op[1]}
                    if len(d) == 1:
                        hs.write(*[(v, p) for p, v in d.items()][0], filename=fname, **kw)
                    else:
                        hs.writes(d, filename=fname, **kw)
                    got = "ok", None
                except (TypeError, NotImplementedError):
                    got = "error", "TypeError"
                    if handles() != n0:  # while the exception and so its frames are there
                        raise Violation("%d HDF5 objects are left open by the function that failed" % (handles() - n0))
                if got != want:
                    raise Violation("the function gave %s, expected %s" % (got, want))
                if handles() != n0:
                    raise Violation("%d HDF5 objects are left open by the function" % (handles() - n0))
                on_disk(fname, ctx, model, kw, "after the function")
                done += 1
            continue
        f = lib(hs.File, fname, writable=True, truncate_existing=reopen == "truncate", **kw)
        if reopen == "truncate":
            model = frozenset()
        if sync in ("exit", "raise"):
            exc = BOOMS[(len(ops) * 7 + len(repr(ops))) % len(BOOMS)]("boom") if sync == "raise" else None
            try:
                with f as g:
                    if g is not f:
                        raise Violation("with gives another object")
                    for op in ops:
                        model = played(f, model, op, ctx)
                    if exc:
                        raise exc
            except Violation:
                raise
            except BaseException as e:
                if e is not exc:
                    if exc is None or not isinstance(e, tuple(BOOMS)):
                        raise
                    raise Violation("another exception came out of with: %r, raised %r" % (e, exc)) from e
                ctx.label(type(e).__name__)
            else:
                if exc:
                    raise Violation("the with block suppressed an exception")
        else:
            for op in ops:
                model = played(f, model, op, ctx)
            if f.closed:
                raise Violation("the File says it is closed")
            if sync.startswith("flush"):
                lib(f.flush)
                if sync == "flush-twice":
                    lib(f.flush)
                if f.closed:
                    raise Violation("the File says it is closed after a flush")
                on_disk(fname, ctx, model, kw, "after flush")
                # and it can be used on
                extra = ("write", [("/b", "list", 900 + i)], "write")
                model = played(f, model, extra, ctx)
                lib(f.close)
            elif sync == "close":
                lib(f.close)
        if sync == "del":
            del f
        else:
            for _ in range(2):
                if f.closed is not True:
                    raise Violation("the File says it is not closed after %s" % sync)
                lib(f.close)
            for op in (("iter",), ("len",), ("flush",), ("contains", "/a"), ("read", "/a", "get"),
                       ("write", [("/a", "int", 5)], "set"), ("del", "/a")):
                got = c19.perform(f, op)
                if got != ("error", "OSError"):
                    raise Violation("%s on a closed File gave %s" % (op, core.short(got)))
        if handles() != n0:
            raise Violation("%d HDF5 objects are left open after %s" % (handles() - n0, sync))
        on_disk(fname, ctx, model, kw, "after %s" % sync)
        done += 1
    return repr(case) if done else None


@V.memo
def segments():
    op = c19.ops().filter(lambda o: o[0] not in ("close", "closed"))

    def renumber(segs):
        out, n = [], 0
        for ops, sync, reopen in segs:
            l = []
            for o in ops:
                if o[0] == "write":
                    n += 1
                    o = ("write", [(o[1][0], o[1][1], n)], o[2])
                elif o[0] == "writes":
                    n += 10
                    o = ("writes", [(a, b, n + i) for i, (a, b) in enumerate(o[1])], "writes")
                l.append(o)
            out.append((l, sync, reopen))
        return out
    return st.lists(st.tuples(st.lists(op, max_size=6), st.sampled_from(SYNC),
                              st.sampled_from(["keep", "keep", "keep", "truncate"])), min_size=1, max_size=4).map(renumber)


@V.memo
def histories():
    return st.tuples(segments(), st.sampled_from(KW))


# ------------------------------------------------------------------ values
def big(spec):
    kind, n = spec
    if kind == "array":
        return np.arange(n, dtype="f8")
    if kind == "list":
        return [i if i % 3 else "item %d" % i for i in range(n // 400)]
    return {"k%d" % i: np.arange(i % 50) for i in range(n // 1000)}


def check_values(case, ctx):
    steps, kw, sync = case
    f, copy = ctx.file("t.mat"), ctx.file("copy.h5")
    h = lib(hs.File, f, writable=True, **kw)
    wrote = 0
    try:
        for k, (path, v) in enumerate(steps):
            if v is None:
                try:
                    del h[path]
                except KeyError:
                    pass
            else:
                try:
                    h.write(big(v[1]) if v[0] == "big" else v[1], path)
                    wrote += 1
                except (TypeError, NotImplementedError, ValueError):
                    ctx.label("refused")
            if k not in sync and k != len(steps) - 1:
                continue
            lib(h.flush)
            shutil.copyfile(f, copy)
            try:
                with h5py.File(copy, "r") as x:
                    x.visititems(lambda n, o: None)
            except Exception as e:
                raise Violation("the flushed file is not valid: %s: %s" % (type(e).__name__, e)) from e
            with lib(hs.File, copy, **kw) as g:
                if sorted(g) != sorted(h):
                    raise Violation("the flushed file has %s, the File %s" % (sorted(g), sorted(h)))
                for n in h:
                    a, b = outcome(h, n), outcome(g, n)
                    d = diff(b, a)
                    if d:
                        raise Violation("%s in the flushed file: %s" % (n, d))
            os.unlink(copy)
    finally:
        h.close()
    return repr(case) if wrote else None


def outcome(f, n):
    try:
        return canon(f.read(n))
    except Exception as e:
        return "error", type(e).__name__


@V.memo
def value_cases():
    v = V.pick(V.nest(V.leaves()).map(lambda x: ("v", x)), V.nest(V.leaves()).map(lambda x: ("v", x)),
               st.tuples(st.just("big"), st.tuples(st.sampled_from(["array", "list", "dict"]), st.sampled_from([400, 20000, 200000]))),
               st.none())
    kw = st.fixed_dictionaries(dict(matlab_compatible=st.booleans(), store_python_metadata=st.booleans(),
                                    compress=st.booleans(), action_for_matlab_incompatible=st.sampled_from(["ignore", "discard"])))
    return st.tuples(st.lists(st.tuples(st.sampled_from(["/a", "/b", "/c"]), v), min_size=1, max_size=5), kw,
                     st.sets(st.integers(0, 4), max_size=4).map(sorted))


# ------------------------------------------------------------------ kill
def check_kill(case, ctx):
    segs, ops, kw, how = case
    fname = ctx.file("t.mat")
    model = frozenset()
    with lib(hs.File, fname, writable=True, **kw) as f:
        for op in segs:
            model = played(f, model, op, ctx)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(r)
            g = hs.File(fname, writable=True, **kw)
            for op in ops:
                c19.perform(g, op)
            if how == "flush":
                g.flush()
            elif how == "close":
                g.close()
            os.write(w, b"done")
            os.kill(os.getpid(), signal.SIGKILL)
        finally:
            os._exit(9)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        said = p.read()
    _, status = os.waitpid(pid, 0)
    if said != b"done":
        raise Violation("the process did not get to %s: status %d" % (how, status))
    for op in ops:
        model, _ = c19.step(model, op)
    judge(fname, model, kw, "after %s and a kill" % how)
    # and it can be written on
    with lib(hs.File, fname, writable=True, **kw) as f:
        model = played(f, model, ("write", [("/b", "list", 901)], "write"), ctx)
    judge(fname, model, kw, "after %s, a kill and another write" % how)
    return repr(case)


@V.memo
def kills():
    def flat(t):
        segs, kw, how = t
        ops = [o for s in segs for o in s[0]]
        return ops[:len(ops) // 2], ops[len(ops) // 2:], kw, how
    return st.tuples(segments(), st.sampled_from(KW), st.sampled_from(["flush", "flush", "close"])).map(flat)


SUBS = [
    Sub("open", opens, check_open, 6000, 60000),
    Sub("history", histories, check_history, 1600, 60000),
    Sub("values", value_cases, check_values, 2500, 80000),
    Sub("kill", kills, check_kill, 1200, 40000),
]
