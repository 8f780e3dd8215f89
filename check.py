#!/usr/bin/env python3-vt
"""check.py <property> [-v] [--only=regex] [--thorough]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vcg.driver import main
if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2:]))
