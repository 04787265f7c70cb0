#!/usr/bin/env python3
"""Developer tool: prove units in parallel and print the outcome."""
import sys, os, json
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf
def one(a):
    u = vf.parse_unit(os.path.join(vf.VERIF, 'units', a + '.c'))
    return a, vf.prove_all(u, '/tmp/units/' + a)
with ThreadPoolExecutor(7) as ex:
    for a, r in ex.map(one, sys.argv[1:]):
        print('== %s: %s %d/%d covers %d, %.1f s' % (a, r['status'], r['discharged'], r['obligations'], r['covers'], r['solver_s']))
        if r['status'] != 'proved':
            print('   ' + '\n   '.join((r['failed'][:12] or []) + [r['detail'][:1500]]))
