#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough] [--replay FILE] [--n RUNS]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "py"))
import registry
import runner

if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in registry.PROPS:
        sys.stderr.write("usage: check.py PROPERTY ...; one of %s\n"
                         % " ".join(sorted(registry.PROPS)))
        sys.exit(2)
    sys.exit(runner.main(registry.PROPS[sys.argv[1]](), sys.argv[2:]))
