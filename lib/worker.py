"""Entry point of the worker process; run by pyhost."""

import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
if sys.path[1:] and os.path.abspath(sys.path[1]) == os.path.dirname(os.path.abspath(__file__)):
    del sys.path[1]

if __name__ == "__main__":
    import faulthandler

    faulthandler.enable()
    from lib import driver

    rc = driver.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
