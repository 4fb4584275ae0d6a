import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402

if __name__ == "__main__":
    try:
        rc = harness.main()
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
