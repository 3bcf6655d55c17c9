"""Which lines and branches of the library the generated cases reach (HX_COVER=directory; for tools/coverage.py)."""
import os
import pickle
import sys


def start():
    out = os.environ.get("HX_COVER")
    if not out:
        return lambda: None
    mon, tool = sys.monitoring, 4
    import hdf5storage
    src = os.path.dirname(hdf5storage.__file__)
    lines, branches = set(), set()
    mon.use_tool_id(tool, "hx")

    def line(code, n):
        if code.co_filename.startswith(src):
            lines.add((os.path.basename(code.co_filename), n))
        return mon.DISABLE

    def branch(code, a, b):
        if not code.co_filename.startswith(src):
            return mon.DISABLE
        branches.add((os.path.basename(code.co_filename), code.co_qualname, code.co_firstlineno, a, b))

    mon.register_callback(tool, mon.events.LINE, line)
    mon.register_callback(tool, mon.events.BRANCH, branch)
    mon.set_events(tool, mon.events.LINE | mon.events.BRANCH)

    def stop():
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
        with open(os.path.join(out, "%d.pickle" % os.getpid()), "wb") as f:
            pickle.dump((lines, branches), f)
    return stop
