import sys
import traceback
from .core import main

try:
    rc = main(sys.argv[1:])
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
