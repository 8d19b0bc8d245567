#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (tier from VERIF_TIER)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import common

def main():
    prop = sys.argv[1]
    mod = importlib.import_module('check_' + prop.lower())
    chk = common.Check(prop)
    try:
        with common.Scratch() as d:
            mod.run(chk, d)
    except common.HarnessError as e:
        print('HARNESS ERROR: %s' % e)
        sys.exit(2)
    chk.finish()

main()
