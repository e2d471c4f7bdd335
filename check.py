#!/usr/bin/env python3
"""Entry point of every check: python3 check.py PROPERTY (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import orchestrate  # noqa

if __name__ == "__main__":
    sys.exit(orchestrate.main(sys.argv[1:]))
