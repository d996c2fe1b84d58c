"""python mc/run.py <PROPERTY> <quick|thorough>"""
import importlib, os, sys
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402

if __name__ == "__main__":
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(core.main(prop, mod, tier))
