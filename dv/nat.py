#!/usr/bin/env python3-vt
"""run only the native harness of a property: nat.py C16 [secs]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
check.load()
r = check.native(check.MODULES[sys.argv[1]], sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 5)
print(r['status'], r['cases'], r['nontrivial'], r.get('key'), r['text'][-1200:])
