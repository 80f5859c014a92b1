#!/usr/bin/env python3
"""blamecheck.py ID...: every line a planted change removes must be a line of the original repository."""
import sys, subprocess, re
for s in sys.argv[1:]:
    f = None
    for l in open(f'/verif/seeded/{s}/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+') or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', f'{n},{n}', '89bda24..HEAD', '--', f], capture_output=True, text=True).stdout
            if not b.startswith('^'): print(s, 'own line:', f, n, b.strip())
        n += 1
