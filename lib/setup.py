#!/usr/bin/env python3
"""Nothing is built ahead: every check builds from /repo's current tree. This only makes sure the tools are there."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('build', 'evidence', 'replays'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
miss = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc') if not shutil.which(t)]
if miss:
    print('missing tools: ' + ', '.join(miss)); sys.exit(1)
print('ok')
