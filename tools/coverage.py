"""coverage.py DIR: what was reached by runs with HX_COVER=DIR; lists lines and branches that never were."""
import dis
import glob
import os
import pickle
import sys
import types

SRC = os.environ.get("HX_SRC", "/repo/src") + "/hdf5storage"
lines, branches = set(), set()
for p in glob.glob(sys.argv[1] + "/*.pickle"):
    with open(p, "rb") as f:
        a, b = pickle.load(f)
    lines |= a
    branches |= b


def codes(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from codes(k)


for p in sorted(glob.glob(SRC + "/*.py")):
    n = os.path.basename(p)
    with open(p) as f:
        text = f.read()
    src = text.splitlines()
    every, sides, total = set(), {}, 0
    for c in codes(compile(text, p, "exec")):
        if c.co_name == "<module>" or "class" in src[c.co_firstlineno - 1][:6]:
            continue
        every |= {x[2] for x in c.co_lines() if x[2]} - {c.co_firstlineno}
        where = {}
        cur = None
        for i in dis.get_instructions(c):
            cur = i.positions.lineno if i.positions else cur
            where[i.offset] = cur
        for (f, q, first, a, b) in branches:
            if f == n and q == c.co_qualname and first == c.co_firstlineno:
                sides.setdefault((q, where.get(a), a), set()).add(b)
    got = {x[1] for x in lines if x[0] == n}
    miss = sorted(every - got)
    one = sorted(k for k, v in sides.items() if len(v) == 1)
    print("%s: %d of %d lines, %d branches taken both ways, %d one way" % (
        n, len(every) - len(miss), len(every), sum(len(v) > 1 for v in sides.values()), len(one)))
    for x in miss:
        print("   never %5d %s" % (x, src[x - 1]))
    for q, x, _ in one:
        print("   one way %5d %s" % (x or 0, src[(x or 1) - 1]))
