#!/usr/bin/env python3-vt
"""replay.py FILE : build the harness of a recorded counterexample and run it natively"""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, native


def main():
    r = json.load(open(sys.argv[1]))
    out = tempfile.mkdtemp(prefix='replay-')
    try:
        _, so, drv = check.build(r['property'], out)
        d = native.Driver(drv, so)
        ins = [(k, float(v) if k == 'f' else v) for k, v in r['inputs']]
        tier = 1 if r.get('tier') == 'thorough' else 0
        v, t = d.run(r['harness'], tier, ins, r.get('want'), r.get('probe') or 0)
        if v != 'fail':
            v, t = d.memcheck(r['harness'], tier, ins)
        print(r['harness'], r['message'])
        print(v, t)
        d.p and d.p.kill()
    finally:
        shutil.rmtree(out, ignore_errors=True)
    sys.exit(1 if v == 'fail' else 0)


main()
