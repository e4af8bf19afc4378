"""run one job in-process, with tracebacks:  python3-vt tools/dbg.py C01 REGEX [tier]"""
import sys, os, re, importlib, traceback, time
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import ctx as C
orig = C.Base.call
def call(self, fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        print("\n".join(tb[:60] if len(tb) < 80 else tb[:50] + ["..."] + tb[-16:]))
        return C.Raised(e)
C.Base.call = call
import check
prop, rx = sys.argv[1], sys.argv[2]
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
mod = importlib.import_module("vt.props." + prop.lower())
for j in mod.jobs(tier):
    j = check.fill(j, prop, tier, 1)
    if re.search(rx, j["name"]):
        t = time.time()
        r = check.run_job(j)
        print(j["name"], {k: v for k, v in r.items() if k not in ("funcs",)})
        break
