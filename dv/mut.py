#!/usr/bin/env python3
"""mut.py PID HEADER 'old' 'new' [nth]: run a check against a mutated scratch copy (development aid)"""
import sys, os, subprocess, shutil, tempfile
pid, hdr, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo/src', d + '/src')
p = f'{d}/src/{hdr}'
s = open(p).read()
parts = s.split(old)
if len(parts) < 2: sys.exit('pattern not found')
s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
open(p, 'w').write(s)
r = subprocess.run(['python3-vt', os.path.join(os.path.dirname(__file__), 'check.py'), pid], env=dict(os.environ, DV_REPO=d), capture_output=True, text=True, cwd='/verif')
print(pid, repr(old[:50]), '->', repr(new[:50]), 'rc', r.returncode)
print('\n'.join(r.stdout.strip().split('\n')[-8:])[-1800:], r.stderr[-300:])
shutil.rmtree(d)
