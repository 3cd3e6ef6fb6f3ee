#!/usr/bin/env python3
import importlib
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'sa'))
sys.path.insert(0, os.path.join(H, 'checks'))
sys.dont_write_bytecode = True
if __name__ == '__main__':
    pid = sys.argv[1]
    import driver
    try:
        mod = importlib.import_module(pid.lower())
        rc = driver.main(pid, mod.check)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
