"""run.py ID [quick|thorough]: one property's check."""
import sys, os, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    t0 = time.time(); rep = Report(prop)
    try:
        m = importlib.import_module("checks." + prop.lower())
        rep.assumptions = list(getattr(m, "ASSUME", []))
        m.run(rep, tier)
        return finish(rep, t0, m.RULE, m.TECH, m.MIN_OB)
    except CheckError as e:
        print(f"ERROR property={prop}: {e}"); return 2
    except Exception:
        traceback.print_exc(); print(f"ERROR property={prop}: internal error of the check"); return 2

if __name__ == "__main__": sys.exit(main())
