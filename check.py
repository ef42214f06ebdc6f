#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough]: decide one property on /repo's current source."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa import engine, registry

if __name__ == '__main__':
    pid = sys.argv[1]
    fn, note = registry.CHECKS[pid]
    sys.exit(engine.main(pid, fn, note))
