#!/usr/bin/env python3
"""Usage: check.py ID — decide one property of /repo's current tree by static analysis."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sa'))
sys.setrecursionlimit(20000)
import report  # noqa: E402

MODULES = {'C26': 'c26', 'C28': 'c28'}
MODULES.update({'C%02d' % i: 'emulator' for i in (*range(1, 17), 19, 20, 29)})
MODULES.update({'C%02d' % i: 'connection' for i in (17, 18, 22, 23)})
MODULES['C21'] = 'eventloop'
MODULES['C27'] = 'clients'
MODULES.update({'C24': 'webcheck', 'C25': 'webcheck'})


def main():
    pid = sys.argv[1]
    r = report.Report(pid)
    mod = importlib.import_module(MODULES[pid])
    level = mod.run(r) or 'other'
    return r.finish(level)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('CHECK-ERROR: no answer')
        sys.exit(2)
