#!/usr/bin/env python3
"""Parses every module of the specification and builds the harness."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import check
p = subprocess.run(['java', '-cp', check.CP, 'tla2sany.SANY'] + sorted(os.path.basename(x) for x in glob.glob(os.path.join(check.SPEC, '*.tla'))),
                   cwd=check.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode != 0 or 'Could not parse' in p.stdout or '*** Errors' in p.stdout:
    print(p.stdout[-3000:])
    sys.exit(1)
check.build()
print('ready')
