#!/opt/venv/bin/python
"""Usage: check.py <property id> [--replay FILE] [--only SUBCHECK]"""
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
       "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
       "PYTHONUTF8": "1"}

if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)


def run():
    import importlib
    import harness
    harness.bootstrap()
    prop = sys.argv[1]
    if prop == "--self-test":
        import gen, tr                                          # noqa
        print("hypothesis and trappy import")
        return 0
    mod = importlib.import_module("checks." + prop.lower())
    return harness.main(prop, mod.LEVEL, mod.SUBS, mod.RULE,
                        assumptions=getattr(mod, "ASSUMPTIONS", ()),
                        findings=getattr(mod, "FINDINGS", ()))


if __name__ == "__main__":
    try:
        code = run()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
