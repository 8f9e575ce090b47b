#!/usr/bin/env python3-vt
"""check.py <property>: decides one property of /repo's current tree.

exit 0  held (undischarged obligations, if any, are named in the evidence)
exit 1  VIOLATION line
other   the machinery itself failed
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lhv.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
