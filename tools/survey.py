"""survey.py CNN SUB N [SEED]: run N cases without stopping, cluster the failures (development aid)."""
import os, sys, re, collections
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
sys.path.insert(0, HERE); sys.path.insert(0, os.environ.get("HX_SRC", "/repo/src"))
import importlib
from hx import core
import hypothesis
from hypothesis import settings, HealthCheck, Phase
prop, subn, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
mod = importlib.import_module("checks." + prop.lower())
import multiprocessing as mp
def work(k):
    sub = next(s for s in mod.SUBS if s.name == subn)
    ctx = core.Ctx(); out = {}; cnt = [0, 0]
    def body(case):
        cnt[0] += 1
        try:
            if core.run_one(sub, case, ctx) is None: cnt[1] += 1
        except core.Violation as e:
            m = str(e)
            lines = m.splitlines()
            where = [l.strip() for l in lines if 'File "' in l]
            if where:
                sig = re.sub(r"'[^']*'|\d+", "#", lines[0])[:90] + " @ " + re.sub(r'.*/', '', where[-1])
            else:
                sig = re.sub(r"\d+", "#", lines[-1])[:70]
            s = core.short(case, 700)
            o = out.setdefault(sig, [0, s, m[-900:]])
            o[0] += 1
            if len(s) < len(o[1]): o[1] = s; o[2] = m[-900:]
    t = settings(max_examples=n // 8, deadline=None, database=None, phases=(Phase.generate,),
                 suppress_health_check=list(HealthCheck))(hypothesis.given(sub.strategy())(body))
    hypothesis.seed(core.seed_for(seed, prop, subn, k))(t)()
    ctx.close()
    return out, cnt, ctx.labels
with mp.Pool(8) as p:
    rs = p.map(work, range(8))
tot = {}; c = [0, 0]; labels = collections.Counter()
for o, cnt, lab in rs:
    c[0] += cnt[0]; c[1] += cnt[1]; labels.update(lab)
    for k, v in o.items():
        if k in tot:
            tot[k][0] += v[0]
            if len(v[1]) < len(tot[k][1]): tot[k][1:] = v[1:]
        else: tot[k] = v
print(c, "cases/trivial", dict(labels))
for k, v in sorted(tot.items(), key=lambda x: -x[1][0])[:int(os.environ.get("TOP", "15"))]:
    print("=====", v[0], k); print("  case:", v[1]); 
    if os.environ.get("MSG"): print(v[2])
