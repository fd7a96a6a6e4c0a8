#!/usr/bin/env python3
"""check.py ID: decide one property (see MANIFEST.json)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from harness import engine, registry  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    engine.main(pid, lambda ck: registry.run(pid, ck))
