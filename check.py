#!/usr/bin/env python3
"""check.py <property id>: run one static check against /repo's current tree."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import framework  # noqa: E402
if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[2] == 'thorough':
        os.environ['VERIF_TIER'] = 'thorough'
    sys.setrecursionlimit(20000)
    sys.exit(framework.main(sys.argv[1]))
