"""python3-vt mkbaseline.py [C01 ...]: rewrites obligations.json from the unchanged tree"""
import sys
from lhv import obligations
obligations.write_baseline(sys.argv[1:] or ["C%02d" % i for i in range(1, 15)])
