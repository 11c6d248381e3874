"""check.py ID: run the check of one property (see ../MANIFEST.json)"""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core


def run(prop):
    import checks

    return core.main(prop, getattr(checks, prop.lower()))


if __name__ == "__main__":
    sys.exit(run(sys.argv[1]))
