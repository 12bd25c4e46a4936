#!/usr/bin/env python3
"""run.py PROPERTY: decide one property on /repo's working tree.

Builds the test driver against /repo, checks the TLA+ models of the property,
replays behaviours generated from the specification and random ones on the
real code, and has TLC judge every recorded event.  See DESIGN.md.
"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import engine  # noqa: E402

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:]))
