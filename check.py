#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property
   check.py --replay <file>               re-run a saved failing case
   check.py --list
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken."""
import sys
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import driver
if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))
