"""C18: files damaged or made by others are read without harm."""
import collections
import datetime
import fractions
import hashlib
import sys

import h5py
import hdf5storage as hs
import numpy as np
from hypothesis import strategies as st

from hx import core, foreign, mat, opts, values as V
from hx.canon import canon, diff
from hx.core import Sub, Violation, lib

PROPERTY = "C18"
QUICK_SCALE = 1
RULE = ("own: values written by the library and then tampered with through the HDF5 API (attributes set to wrong, "
        "hostile or other objects' values, removed; Datasets replaced, retyped, changed, resized; members removed, "
        "renamed, added, linked, made cyclic; references redirected); matlab: the same for MATLAB files; foreign: files "
        "of other kinds of objects with attributes of the library and MATLAB. They are read by every means: the result "
        "has to be an object of supported types or an ordinary exception, with no module imported, code executed, "
        "process started or file written (audit hook), in bounded time, and an undamaged variable in the same file "
        "still reads as before, by the same File too. Non-trivial: distinct tampered files in which at least one "
        "change was applied.")

HOSTILE = ["__import__('os').system('touch /tmp/hx-c18-pwned')", "os.system", "builtins.eval", "builtins.exec",
           "subprocess.Popen", "antigravity", "this", "hx_no_such.module", "posix.system", "object", "type",
           "numpy.load", "pickle.loads", "lambda: 1", "{'names': ['a'], 'formats': ['O'], 'offsets': [-8]}",
           "{'names': ['a', 'a'], 'formats': ['i1', 'i1']}", "('O', (-1,))", "[('a', 'i4'), ('a', 'i4')]",
           "{'a': ('i4', 0, 'b')}", "('i4', 2**40)", "['i4']", "[[]]", "((((((1,),),),),),)", "-" * 300 + "1",
           "(" * 150 + ")" * 150, "'" + "x" * 200 + "'", "1e999", "'i4", "{1: {2: [3]}, None: ...}", "'M8[5q]'",
           "'V99999999999'", "'object'", "'U'", "{'names': ['a'], 'formats': ['i4'], 'itemsize': -3}", "''", "None",
           "True", "b'i4'", "1 if 1 else 2", "x", "'%s'", "{0}", "../../etc/passwd", "/", "", " ", "\0", "\ud800"]
TYPES = ["numpy.ndarray", "numpy.matrix", "numpy.chararray", "numpy.recarray", "numpy.bool_", "numpy.void",
         "numpy.uint8", "numpy.uint64", "numpy.int8", "numpy.float16", "numpy.float64", "numpy.complex64",
         "numpy.bytes_", "numpy.str_", "numpy.unicode_", "numpy.string_", "numpy.object_", "numpy.object", "numpy.dtype",
         "bool", "int", "long", "float", "complex", "str", "bytes", "bytearray", "builtins.NoneType",
         "builtins.ellipsis", "builtins.NotImplementedType", "dict", "collections.OrderedDict",
         "collections.Counter", "slice", "range", "datetime.timedelta", "datetime.timezone", "datetime.date",
         "datetime.time", "datetime.datetime", "fractions.Fraction", "list", "tuple", "set", "frozenset",
         "collections.deque", "collections.ChainMap"]
CLASSES = ["single", "double", "uint8", "uint16", "int8", "int64", "logical", "char", "cell", "struct",
           "canonical empty", "function_handle", "table", "FileWrapper__", "string"]
UNDERLYING = ["bool", "uint8", "int16", "float16", "float64", "complex128", "bytes", "bytes8", "bytes24", "bytes7",
              "str", "str32", "str96", "str33", "object", "void", "void8", "record", "bytesx", "strx", "str-32", "bytes0",
              "str0", "float128", "datetime64[ns]"]
NAMES = ["Python.Type", "Python.Shape", "Python.Empty", "Python.Fields", "Python.numpy.UnderlyingType",
         "Python.numpy.Container", "Python.dict.StoredAs", "Python.dict.key_str_types",
         "Python.dict.keys_values_names", "MATLAB_class", "MATLAB_empty", "MATLAB_int_decode", "MATLAB_fields",
         "MATLAB_sparse", "MATLAB_global", "MATLAB_object_decode", "H5PATH"]
TUNED = {"Python.Type": TYPES, "MATLAB_class": CLASSES, "Python.numpy.UnderlyingType": UNDERLYING,
         "Python.numpy.Container": ["scalar", "ndarray", "matrix", "chararray", "recarray", "list"],
         "Python.dict.StoredAs": ["individually", "keys_values", "values"],
         "Python.dict.key_str_types": ["t", "b", "SU", "tbSU", "bb", "x", "tttttttttt", "U"]}

OK_TYPES = {bool, int, float, complex, str, bytes, bytearray, type(None), type(...), type(NotImplemented), dict,
            collections.OrderedDict, collections.Counter, collections.ChainMap, slice, range, list, tuple, set,
            frozenset, collections.deque, datetime.timedelta, datetime.timezone, datetime.date, datetime.time,
            datetime.datetime, fractions.Fraction, np.ndarray, np.matrix, np.chararray, np.recarray, np.void,
            np.record}
OK_TYPES |= {t for t in np.sctypeDict.values()}


def judge(x, seen=None, depth=0):
    """Every object in ``x`` has a supported type."""
    seen = set() if seen is None else seen
    if id(x) in seen or depth > 200 or len(seen) > 20000:
        return
    seen.add(id(x))
    if isinstance(x, np.dtype):
        return
    t = type(x)
    if t not in OK_TYPES and t not in (h5py.Reference, h5py.RegionReference, h5py.Empty):
        raise Violation("gave an object of type %s: %s" % (t, core.short(x)))
    if isinstance(x, np.ndarray) and x.dtype.hasobject:
        if x.dtype.names is not None:
            for n in x.dtype.names:
                judge(x[n], seen, depth + 1)
        elif x.size < 5000:
            for y in np.asarray(x).ravel():
                judge(y, seen, depth + 1)
    elif isinstance(x, np.void) and x.dtype.names is not None:
        for n in x.dtype.names:
            judge(x[n], seen, depth + 1)
    elif isinstance(x, (dict,)):
        for k, v in x.items():
            judge(k, seen, depth + 1)
            judge(v, seen, depth + 1)
    elif isinstance(x, collections.ChainMap):
        for m in x.maps:
            judge(m, seen, depth + 1)
    elif t in (list, tuple, set, frozenset, collections.deque):
        for y in x:
            judge(y, seen, depth + 1)
    elif t is slice:
        for y in (x.start, x.stop, x.step):
            judge(y, seen, depth + 1)


# ------------------------------------------------------------------ watching the process
class Watch:
    events = None
    installed = False

    @classmethod
    def hook(cls, name, args):
        if cls.events is None:
            return
        if name in ("exec", "os.system", "subprocess.Popen", "pickle.find_class", "marshal.loads",
                    "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.remove", "os.rename",
                    "os.mkdir", "os.rmdir", "shutil.rmtree", "os.chmod", "os.putenv", "socket.connect",
                    "socket.__new__", "ctypes.dlopen", "sys._getframe_", "builtins.input", "open", "os.symlink",
                    "os.link", "os.truncate", "os.kill", "sys.settrace", "sys.addaudithook"):
            if name == "open" and isinstance(args[1], str) and not set(args[1]) & set("wax+"):
                return
            cls.events.append((name, core.short(args, 200)))

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        """A finder that finds nothing: modules that are not imported yet come by here."""
        if cls.events is not None:
            cls.events.append(("import", name))

    def __enter__(self):
        if not Watch.installed:
            sys.addaudithook(Watch.hook)
            sys.meta_path.insert(0, Watch)
            Watch.installed = True
        Watch.events = []
        return self

    def __exit__(self, *a):
        self.seen, Watch.events = Watch.events, None


def warm(ctx):
    """Whatever reading imports by itself (not because a file says so) is imported before."""
    if getattr(ctx, "warm", False):
        return
    f = ctx.file("warm.h5")
    vals = [np.matrix([1]), np.array(["a"]), {1: 2}, {"a": None}, fractions.Fraction(1, 2), datetime.datetime.now(),
            datetime.timezone.utc, collections.Counter("a"), collections.ChainMap({}), slice(1), {1}, frozenset(),
            np.dtype([("a", "i4")]), np.zeros(2, [("a", "i4"), ("b", "U2")]).view(np.recarray), np.chararray(2),
            collections.deque(), np.void(b"a"), collections.OrderedDict(), ..., b"", bytearray(b"a"), 10 ** 30]
    for i, v in enumerate(vals):
        for m in (False, True):
            hs.write(v, "/v%d%s" % (i, m), filename=f, matlab_compatible=m,
                     action_for_matlab_incompatible="ignore")
            hs.read("/v%d%s" % (i, m), filename=f)
    hs.savemat(f, {"a": 1}, appendmat=False)
    hs.loadmat(f, appendmat=False)
    import importlib
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    for name in ("utf_8", "utf_16", "utf_16_le", "utf_16_be", "utf_32", "utf_32_le", "utf_32_be", "ascii", "latin_1"):
        importlib.import_module("encodings." + name)
    ctx.warm = True


# ------------------------------------------------------------------ tampering
SKIP = ("keep",)


def targets(f):
    """Objects that may be tampered with, in a fixed order, each once."""
    out, seen = [], set()

    def spare(o):
        a = h5py.h5o.get_info(o.id).addr
        if a not in seen:
            seen.add(a)
            if isinstance(o, h5py.Group):
                for n in o:
                    spare(o[n])

    if "keep" in f:
        spare(f["keep"])
    for n in KEPT_REFS:
        spare(f["#refs#"][n])
    seen.add(h5py.h5o.get_info(f["/"].id).addr)

    def walk(g, path):
        for n in sorted(g):
            try:
                link = g.get(n, getlink=True)
                if not isinstance(link, h5py.HardLink):
                    continue
                o = g[n]
            except Exception:
                continue
            info = h5py.h5o.get_info(o.id)
            if info.addr in seen:
                continue
            seen.add(info.addr)
            if path or n != "#refs#":
                out.append((g, n))
            if isinstance(o, h5py.Group):
                walk(o, path + "/" + n)
    walk(f, "")
    return out


def attr_data(v, f, objs):
    """The attribute value a plain description stands for."""
    kind = v[0]
    if kind == "text":
        return np.bytes_(v[1].encode("utf-8", "surrogatepass"))
    if kind == "str":
        return v[1].encode("utf-8", "replace").decode().replace("\0", "")
    if kind == "raw":
        return np.bytes_(v[1])
    if kind == "num":
        return np.dtype(v[2]).type(v[1])
    if kind == "nums":
        return np.array(v[1], v[2])
    if kind == "texts":
        return np.array([x.encode("utf-8", "surrogatepass").replace(b"\0", b"") for x in v[1]], h5py.string_dtype())
    if kind == "vlen":
        a = np.empty(len(v[1]), object)
        for i, x in enumerate(v[1]):
            a[i] = np.array(list(x), "S1")
        return a
    if kind == "null":
        return h5py.Empty("S1" if v[1] else "f8")
    if kind == "ref":
        g, n = objs[v[1] % len(objs)]
        return g[n].ref
    if kind == "complex":
        return np.complex128(1j)
    if kind == "struct":
        return np.zeros(2, [("a", "i4"), ("b", "S3")])
    raise AssertionError(v)


def put_attr(attrs, name, v, f, objs):
    data = attr_data(v, f, objs)
    if v[0] == "vlen":
        attrs.create(name, data, data.shape, dtype=h5py.special_dtype(vlen=np.dtype("S1")))
    else:
        attrs.create(name, data)


def tamper(f, t):
    """Apply one change; False if it has nothing to change."""
    kind = t[0]
    objs = targets(f)
    if not objs:
        return False
    g, n = objs[t[1] % len(objs)]
    o = g[n]
    if kind == "set":
        put_attr(o.attrs, t[2], t[3], f, objs)
    elif kind == "change":
        have = sorted(o.attrs)
        if not have:
            return False
        put_attr(o.attrs, have[t[2] % len(have)], t[3], f, objs)
    elif kind == "tune":
        have = sorted(set(o.attrs) & set(TUNED))
        if not have:
            return False
        name = have[t[2] % len(have)]
        pool = TUNED[name]
        o.attrs[name] = np.bytes_(pool[t[3] % len(pool)].encode())
    elif kind == "unset":
        have = sorted(o.attrs)
        if not have:
            return False
        del o.attrs[have[t[2] % len(have)]]
    elif kind == "swap":
        g2, n2 = objs[t[2] % len(objs)]
        a, b = o.attrs, g2[n2].attrs
        mine, other = list(a), list(b)
        for k in other:
            if k not in mine or t[3]:
                try:
                    a.create(k, b[k], dtype=b.get_id(k).dtype)
                except Exception:
                    a[k] = b[k]
        if t[3]:
            for k in mine:
                if k not in other:
                    del a[k]
    elif kind == "remove":
        del g[n]
    elif kind == "rename":
        if t[2] in g or not t[2] or t[2] in SKIP:
            return False
        g.move(n, t[2])
    elif kind == "link":
        how = t[2]
        if how == "self":  # contains itself
            if not isinstance(o, h5py.Group):
                return False
            o["loop%d" % t[1]] = o
        elif how == "parent":
            if not isinstance(o, h5py.Group):
                return False
            o["up%d" % t[1]] = g
        else:
            del g[n]
            if how == "dangling":
                g[n] = h5py.SoftLink("/nowhere/at/all")
            elif how == "cycle":
                g[n] = h5py.SoftLink(g.name.rstrip("/") + "/" + n)
            elif how == "external":
                g[n] = h5py.ExternalLink("no such file.h5", "/x")
            else:
                g[n] = h5py.SoftLink("/")
    elif kind == "replace":
        if t[2][0] == "stored" and t[2][2] == "virtual":
            return False  # could become its own source, which crashes HDF5
        attrs = [(k, o.attrs.get_id(k)) for k in o.attrs]
        tmp = "hx tampered"
        if tmp in g:
            return False
        foreign.put(f, g.name.rstrip("/") + "/" + tmp, t[2])
        if tmp not in g:
            return False
        if t[3]:
            for k, _ in attrs:
                try:
                    g[tmp].attrs.create(k, o.attrs[k], dtype=o.attrs.get_id(k).dtype)
                except Exception:
                    pass
        del g[n]
        g.move(tmp, n)
    elif kind == "retype":
        if not isinstance(o, h5py.Dataset) or o.shape is None:
            return False
        return retype(f, g, n, o, t[2], objs, t[3])
    elif kind == "text":
        if not isinstance(o, h5py.Dataset):
            return False
        raw = np.bytes_(HOSTILE[t[2] % len(HOSTILE)].encode("utf-8", "surrogatepass"))
        keep = {k: (o.attrs[k], o.attrs.get_id(k).dtype) for k in o.attrs}
        del g[n]
        d = g.create_dataset(n, data=raw if len(raw) else h5py.Empty("S1"))
        if t[3]:  # as the text of a dtype
            d.attrs["Python.Type"] = np.bytes_(b"numpy.dtype")
            d.attrs["Python.Shape"] = np.zeros(0, np.uint64)
            d.attrs["Python.numpy.UnderlyingType"] = np.bytes_(b"bytes%d" % (8 * len(raw)))
            d.attrs["Python.numpy.Container"] = np.bytes_(b"scalar")
        else:
            for k, (v, dt) in keep.items():
                d.attrs.create(k, v, dtype=dt)
    elif kind == "data":
        if not isinstance(o, h5py.Dataset) or not o.shape and o.shape != () or o.size == 0:
            return False
        return damage(f, o, t[2], t[3], objs)
    else:
        raise AssertionError(t)
    return True


def retype(f, g, n, o, how, objs, salt):
    shape = o.shape
    try:
        old = o[()]
    except Exception:
        old = np.zeros(shape)
    if how == "ref":
        r = np.empty(shape or (1,), h5py.ref_dtype)
        r.fill(g[n].ref)
        for i in range(r.size):
            g2, n2 = objs[(salt + i) % len(objs)]
            r.reshape(-1)[i] = g2[n2].ref
        data, kw = r, dict(dtype=h5py.ref_dtype)
    elif how == "string":
        data, kw = np.full(shape, "text", object), dict(dtype=h5py.string_dtype())
    elif how == "bytes":
        data, kw = np.full(shape, b"\xff\x00\xd8", "S3"), {}
    elif how == "vlen":
        data = np.empty(shape, object)
        for i in np.ndindex(*shape):
            data[i] = np.arange(salt % 4)
        kw = dict(dtype=h5py.vlen_dtype(np.int32))
    elif how == "struct":
        data, kw = np.zeros(shape, [("a", "i4"), ("b", "f8", (2,))]), {}
    elif how == "complexlike":
        data, kw = np.zeros(shape, [("real", "f4"), ("imag", "S2")]), {}
    elif how == "null":
        del g[n]
        put_null(g, n, o)
        return True
    elif how == "void":
        data, kw = np.zeros(shape, "V3"), {}
    elif how == "reshape":
        new = [(0,), (), (3,), (0, 0), (1, 1), (2, 3), (2, 0, 1), (1, 1, 1, 1), (7,)][salt % 9]
        data, kw = np.resize(np.asarray(old), new) if np.size(old) else np.zeros(new, o.dtype), dict(dtype=o.dtype)
    else:
        data, kw = np.zeros(shape, how), {}
        if o.dtype.kind in "biuf" and np.size(old):
            with np.errstate(all="ignore"):
                data = np.asarray(old).astype(how)
    attrs = {}
    for k in o.attrs:
        try:
            attrs[k] = (o.attrs[k], o.attrs.get_id(k).dtype)
        except Exception:
            pass
    del g[n]
    d = g.create_dataset(n, data=data, **kw)
    for k, (v, dt) in attrs.items():
        try:
            d.attrs.create(k, v, dtype=dt)
        except Exception:
            pass
    return True


def put_null(g, n, o):
    d = g.create_dataset(n, data=h5py.Empty("f8"))
    for k in o.attrs:
        try:
            d.attrs.create(k, o.attrs[k], dtype=o.attrs.get_id(k).dtype)
        except Exception:
            pass


def damage(f, o, pos, val, objs):
    """Change one element (or one byte of it)."""
    flat = pos % o.size
    idx = np.unravel_index(flat, o.shape) if o.shape else ()
    dt = o.dtype
    if h5py.check_dtype(ref=dt) is not None:
        if val % 4 == 0:
            new = h5py.Reference()
        else:
            g2, n2 = objs[val % len(objs)]
            new = g2[n2].ref if val % 4 != 1 else f.ref
    elif dt.hasobject:
        if h5py.check_string_dtype(dt) is None:
            return False
        new = ["\ufeff", "", "x" * 50, "\x01"][val % 4]
    elif dt.kind == "V" and dt.names is not None and any(dt[n].hasobject for n in dt.names):
        return False
    else:
        raw = bytearray(np.asarray(o[idx]).astype(dt).tobytes()) if dt.names is None else \
            bytearray(np.asarray(o[idx], dtype=dt).tobytes())
        if not raw:
            return False
        if set(o.attrs) & {"MATLAB_empty", "Python.Empty"}:  # a size: keep it moderate
            raw[0 if dt.byteorder != ">" else -1] ^= 1 << val % 4
        else:
            raw[val % len(raw)] ^= 1 << (val // len(raw)) % 8
        new = np.frombuffer(bytes(raw), dt)[0] if dt.names is not None or dt.kind != "S" else bytes(raw)
    o[idx] = new
    return True


# ------------------------------------------------------------------ reading
READS = ["read", "reads", "file", "loadmat", "options", "members"]


def read_all(fname, how, ctx):
    """Results of reading what may be damaged (raises only ordinary exceptions)."""
    out = []

    def go(fn, *a, **k):
        try:
            out.append(fn(*a, **k))
            ctx.label("value")
        except RecursionError:
            ctx.label("RecursionError")
        except MemoryError:
            ctx.label("MemoryError")
        except Exception as e:
            ctx.label(type(e).__name__)
    if how == "read":
        go(hs.read, "/x", filename=fname)
    elif how == "reads":
        go(hs.reads, ["/keep", "/x"], filename=fname)
    elif how == "loadmat":
        go(hs.loadmat, fname, appendmat=False)
        go(hs.loadmat, fname, appendmat=False, variable_names=["x"])
    elif how == "options":
        for kw in (dict(structs_as_dicts=True), dict(matlab_compatible=False, reverse_dimension_order=True),
                   dict(matlab_compatible=False, complex_names=("a", "b"), group_for_references="/x")):
            go(hs.read, "/x", filename=fname, options=hs.Options(**kw))
    elif how == "members":
        go(members, fname, ctx)
    return out


def members(fname, ctx):
    """Every object in the file by itself."""
    out = []
    with h5py.File(fname, "r") as f:
        paths = [g.name.rstrip("/") + "/" + n for g, n in targets(f)][:30]
    with hs.File(fname) as f:
        for p in paths:
            try:
                out.append(f.read(p.encode()))
            except Exception as e:
                ctx.label(type(e).__name__)
        for fn in (lambda: list(f), lambda: len(f), lambda: "/x" in f, lambda: list(f.items()), lambda: f.get("/x"),
                   lambda: dict(f)):
            try:
                out.append(fn())
            except Exception as e:
                ctx.label(type(e).__name__)
    return out


def digest(fname):
    with open(fname, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


KEPT = {"a": [1, "two", 3.5], "b": np.arange(6.0).reshape(2, 3), "c": {"d": (None, b"x")}}


def examine(fname, how, ctx):
    before = digest(fname)
    with Watch() as w:
        if how == "file":
            with hs.File(fname) as f:
                out = []
                for p in ("/x", "/keep", "/x", "/keep"):
                    try:
                        v = f.read(p)
                    except Exception as e:
                        if p == "/keep":
                            raise Violation("the undamaged variable cannot be read: %s: %s" % (type(e).__name__, e)) from e
                        ctx.label(type(e).__name__)
                        continue
                    if p == "/keep":
                        whole(v)
                    else:
                        out.append(v)
        else:
            out = read_all(fname, how, ctx)
        try:
            kept = hs.read("/keep", filename=fname)
        except Exception as e:
            raise Violation("the undamaged variable cannot be read: %s: %s" % (type(e).__name__, e)) from e
    bad = [e for e in w.seen if not (e[0] == "open" and fname in e[1])]
    if bad:
        raise Violation("reading did %s" % bad[:5])
    whole(kept)
    for x in out:
        judge(x)
    if digest(fname) != before:
        raise Violation("reading changed the file")


def whole(v):
    d = diff(canon(v), canon(KEPT))
    if d:
        raise Violation("the undamaged variable reads differently: %s" % d)


KEPT_REFS = set()  # members of the references group that belong to the undamaged variable


def refs(fname):
    with h5py.File(fname, "a") as f:
        return set(f["#refs#"]) if "#refs#" in f else set()


def keep(fname):
    before = refs(fname)
    hs.write(KEPT, "/keep", filename=fname, matlab_compatible=True)
    after = refs(fname)
    KEPT_REFS.clear()
    KEPT_REFS.update(after - before)



def check_own(case, ctx):
    value, kw, changes, how = case
    warm(ctx)
    f = ctx.file("t.mat")
    keep(f)
    lib(hs.write, value, "/x", filename=f, options=hs.Options(**kw))
    n = apply(f, changes)
    examine(f, how, ctx)
    return (repr(changes), how, canon(value), sorted(kw.items())) if n else None


def apply(f, changes):
    n = 0
    with h5py.File(f, "r+") as h:
        for t in changes:
            try:
                n += bool(tamper(h, t))
            except Exception:
                pass  # HDF5 or h5py will not have it
    return n


def check_matlab(case, ctx):
    value, style, changes, how = case
    warm(ctx)
    f = ctx.file("t.mat")
    mat.build(f, [("x", value)], style)
    keep(f)
    n = apply(f, changes)
    examine(f, how, ctx)
    return (repr(changes), how, repr(value)) if n else None


def check_foreign(case, ctx):
    kind, changes, how = case
    warm(ctx)
    f = ctx.file("t.h5")
    keep(f)
    with h5py.File(f, "r+") as h:
        try:
            foreign.put(h, "/x", kind)
        except (ValueError, TypeError, OSError, KeyError):
            return None
    apply(f, changes)
    examine(f, how, ctx)
    return repr(kind), repr(changes), how


# ------------------------------------------------------------------ strategies
@V.memo
def attr_values():
    text = V.pick(st.sampled_from(HOSTILE), st.sampled_from(HOSTILE), st.sampled_from(TYPES), st.sampled_from(CLASSES),
                  st.sampled_from(UNDERLYING), V.text(0, 5), st.sampled_from(["a", "b", "keys", "values", "x/y"]))
    num = st.tuples(st.just("num"), st.sampled_from([0, 1, 2, 3, 7, 255]),
                    st.sampled_from(["u1", "i4", "i8", "u8", "f4", "f8", "?"]))
    nums = st.tuples(st.just("nums"),
                     V.pick(st.lists(st.integers(0, 4), max_size=4), st.lists(st.integers(-3, 3), max_size=3),
                            st.sampled_from([[2 ** 55], [2 ** 62, 2 ** 62], [2 ** 31, 2 ** 31, 2], [-1], [0, 2 ** 60],
                                             [1] * 40, [0] * 33])),
                     st.sampled_from(["i8", "i8", "f8", "i8"]))
    return V.pick(text.map(lambda s: ("text", s)), text.map(lambda s: ("text", s)), text.map(lambda s: ("str", s)),
                  st.binary(max_size=4).map(lambda b: ("raw", b)), num, nums, nums,
                  st.lists(text, max_size=3).map(lambda x: ("texts", x)),
                  st.lists(V.pick(st.just("a"), st.just("b"), st.text("ab/.\xe9".encode("ascii", "ignore").decode(),
                                                                      max_size=3)), max_size=3
                           ).map(lambda x: ("vlen", [y.encode() and y for y in x])),
                  st.booleans().map(lambda b: ("null", b)), st.integers(0, 9).map(lambda i: ("ref", i)),
                  st.just(("complex",)), st.just(("struct",)))


@V.memo
def tampers():
    i = st.integers(0, 40)
    kinds = foreign.kinds
    return V.pick(
        st.tuples(st.just("tune"), i, i, i), st.tuples(st.just("tune"), i, i, i), st.tuples(st.just("tune"), i, i, i),
        st.tuples(st.just("set"), i, st.sampled_from(NAMES), attr_values()),
        st.tuples(st.just("change"), i, i, attr_values()), st.tuples(st.just("change"), i, i, attr_values()),
        st.tuples(st.just("unset"), i, i), st.tuples(st.just("unset"), i, i),
        st.tuples(st.just("swap"), i, i, st.booleans()),
        st.tuples(st.just("remove"), i),
        st.tuples(st.just("rename"), i, st.sampled_from(["a", "b", "keys", "values", "start", "0", "x", "\\x2f"])),
        st.tuples(st.just("link"), i, st.sampled_from(["self", "parent", "dangling", "cycle", "external",
                                                       "root"])),
        st.tuples(st.just("text"), i, i, V.pick(st.just(True), st.booleans())),
        st.tuples(st.just("replace"), i, kinds, st.booleans()),
        st.tuples(st.just("retype"), i, st.sampled_from(
            ["ref", "string", "bytes", "vlen", "struct", "complexlike", "null", "void", "reshape", "reshape", "u1",
             "u2", "u4", "i8", "f4", "f8", "?", "c16", "f2", "f16"]), i),
        st.tuples(st.just("data"), i, i, st.integers(0, 300)), st.tuples(st.just("data"), i, i, st.integers(0, 300)))


def changes():
    return st.lists(tampers(), min_size=1, max_size=4)


def own_opts():
    return V.pick(opts.matlab(True), opts.matlab(False), opts.plain(True), opts.plain(True), opts.plain(False),
                  st.just({"action_for_matlab_incompatible": "ignore"})).map(
        lambda kw: dict(kw, group_for_references="/#refs#"))


SUBS = [
    Sub("own-leaf", lambda: st.tuples(V.leaves(), own_opts(), changes(), st.sampled_from(READS)), check_own, 4000,
        case_timeout=40, crashy=True),
    Sub("own-nested", lambda: st.tuples(V.nest(V.leaves()), own_opts(), changes(), st.sampled_from(READS)), check_own,
        4000, case_timeout=40, crashy=True),
    Sub("matlab", lambda: st.tuples(mat.values(), mat.STYLES,
                                    changes(), st.sampled_from(READS)), check_matlab, 3000, case_timeout=40, crashy=True),
    Sub("foreign", lambda: st.tuples(foreign.kinds, st.lists(tampers(), max_size=3), st.sampled_from(READS)),
        check_foreign, 3500, case_timeout=40, crashy=True),
]
