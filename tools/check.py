#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

WHERE = {'C01': 'check_c01', 'C02': 'checks_store', 'C03': 'checks_store', 'C04': 'checks_store', 'C05': 'checks_store', 'C06': 'checks_store',
         'C15': 'check_c15', 'C07': 'check_c07', 'C08': 'checks_image', 'C09': 'checks_image', 'C10': 'checks_image', 'C11': 'checks_life', 'C12': 'checks_life', 'C13': 'checks_life', 'C18': 'checks_life', 'C17': 'check_c17', 'C14': 'check_c14', 'C16': 'check_c16', 'C19': 'check_c19', 'C20': 'check_c20'}

if __name__ == '__main__':
    p = sys.argv[1]
    ck = vlib.Check(p)
    try:
        getattr(importlib.import_module(WHERE[p]), p.lower())(ck)
        ck.finish()
    except vlib.HarnessError as e:
        print(f'[{p}] the check itself failed: {e}', flush=True)
        sys.exit(2)
