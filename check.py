#!/usr/bin/env python3
"""Decides one property: python3 check.py C01   (VERIF_SEED, VERIF_TIER from the environment)

Builds the harness against /repo's working tree, lets it execute the library and record what it did, and lets
TLC judge the records (and the specifications themselves).  Exit 0: held on everything explored.  Exit 1 with
a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import sys
sys.dont_write_bytecode = True
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import driver

if __name__ == "__main__":
    driver.main(sys.argv[1:])
