import importlib
import sys

from vlib import check

if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    sys.exit(check.main(pid, mod.run, assumptions=getattr(mod, "ASSUMPTIONS", ())))
