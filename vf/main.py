import sys
from .report import run_property
if __name__ == "__main__":
    rc = 0
    for p in sys.argv[1:]: rc |= run_property(p)
    sys.exit(rc)
