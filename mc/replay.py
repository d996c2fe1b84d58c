"""python mc/replay.py <replay.json>: runs the one failing case again, without the explorer."""
import importlib, json, os, sys
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402

if __name__ == "__main__":
    r = json.load(open(sys.argv[1]))
    mod = importlib.import_module(f"mc.checks.{r['property'].lower()}")
    core.impl()
    if hasattr(mod, "prepare"):
        mod.prepare(r.get("tier", "quick"))
    msg, x = core.run_one(mod, r["case"])
    print(json.dumps(r["case"]))
    print(msg or "the property holds on this case")
    sys.exit(1 if msg else 0)
