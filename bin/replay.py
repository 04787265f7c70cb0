#!/usr/bin/env python3
"""replay.py FILE: run the failing input recorded in a replay file on the real code (rebuilt from /repo)."""
import os, sys, re, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, check
t = open(sys.argv[1]).read()
g = lambda k, d=None: (re.search(r'^%s: (.*)$' % k, t, re.M) or [None, d])[1]
if g('hex') is None:
    print(t); print('no failing input recorded: the file names the failed obligation'); sys.exit(1)
u = vf.parse_unit(os.path.join(vf.VERIF, 'units', g('unit') + '.c'))
w = tempfile.mkdtemp()
try:
    o = check.build_lib(w)
    exe, err = check.build_exec(u, w, o)
    rc, out, dt = vf.sh(['bash', '-c', 'exec "$0" "$@" 2>&1', exe, 'replay', g('p', '0'), g('g', '0'), g('hex')], 120)
    print(out); sys.exit(0 if rc == 0 else 1)
finally:
    shutil.rmtree(w)
