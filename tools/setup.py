#!/usr/bin/env python3
"""Nothing to install: checks build what they need. Makes sure the tools are there."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
os.makedirs(os.path.join(mc.ROOT, 'build'), exist_ok=True)
os.makedirs(os.path.join(mc.ROOT, 'evidence'), exist_ok=True)
for c in (['java', '-version'], ['clang', '--version'], ['gcc', '--version']): subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for m in ('IsoAlloc', 'Trace', 'MC', 'Gen'):
    r = subprocess.run(['java', '-cp', mc.CP, 'tla2sany.SANY', m + '.tla'], cwd=mc.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout); sys.exit(1)
print('ok')
