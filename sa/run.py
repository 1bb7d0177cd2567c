"""python3 -m sa.run C01 [--tier quick|thorough] [-v]"""
import importlib
import os
import sys
import warnings


def cli():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, "-m", "sa.run"] + sys.argv[1:])
    warnings.simplefilter("ignore")
    from . import report

    ids = [a for a in sys.argv[1:] if a[0] == "C" and a[1:].isdigit()]
    if not ids:
        d = os.path.join(os.path.dirname(__file__), "checks")
        ids = sorted(f[:-3].upper() for f in os.listdir(d) if f.startswith("c") and f[1:3].isdigit() and f.endswith(".py"))
    rc = 0
    for i in ids:
        rc = max(rc, report.main(importlib.import_module("sa.checks." + i.lower()), sys.argv[1:]))
    return rc


if __name__ == "__main__":
    sys.exit(cli())
