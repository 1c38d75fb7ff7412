#!/opt/veriftools/pyvenv/bin/python
"""run.py <property> [--tier quick|thorough] [--seed N]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    import lib
    mod = importlib.import_module("checks." + a.prop.lower())
    ck = lib.Check(a.prop, a.tier, a.seed, mod.RULE)
    try:
        mod.run(ck)
    except lib.Inconclusive as e:
        ck.incon.append(str(e))
    except Exception:           # a broken harness is not a verdict; what was seen before still counts
        ck.incon.append("harness: " + traceback.format_exc()[-2500:])
    except BaseException:
        ck.scratch.close()
        raise
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
