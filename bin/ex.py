#!/usr/bin/env python3
"""Developer tool: build and run the executed contract of units (bin/ex.py SECS NAME... [-- replay p g hex])."""
import os, sys, subprocess, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, check
args = sys.argv[1:]
rep = None
if '--' in args:
    k = args.index('--'); rep = args[k+1:]; args = args[:k]
secs = args[0]
W = '/tmp/dev' + hashlib.sha1(vf.REPO.encode()).hexdigest()[:6]; os.makedirs(W, exist_ok=True)
src = vf.REPO + '/src/main/c'
h = subprocess.run('cat %s/*.c %s/*.h %s/parts/* | sha1sum' % (src, src, src), shell=True, capture_output=True, text=True).stdout
st = W + '/stamp'
if not os.path.exists(st) or open(st).read() != h:
    if not check.build_lib(W): sys.exit(2)
    open(st, 'w').write(h)
for n in args[1:]:
    u = vf.parse_unit(os.path.join(vf.VERIF, 'units', n + '.c'))
    exe, err = check.build_exec(u, W, W + '/xmq.o')
    if not exe: print(n, err); continue
    cmd = [exe] + (['replay'] + rep if rep else [str(check.SEED), secs])
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
    f = check.parse_fail(p.stdout)
    print(n, p.stdout[-1500:].strip(), (check.printable(f['hex']) if f else ''))
    if f or rep: print(p.stderr[:2500])
