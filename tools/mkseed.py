#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< JSON {old,new,needs,breaks,demo(code),[edits]}: makes seeded/ID (patch against /repo HEAD, C++ demo linked with the built core)."""
import sys, json, os, subprocess
def mk(id, prop, edits, needs, breaks, demo, link=True, extra=''):
    d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    R = os.environ.get('SEED_REPO', '/tmp/srm')
    assert not subprocess.run(['git', '-C', R, 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout.strip(), 'repo not clean'
    try:
        for f, old, new in edits:
            p = f'{R}/{f}'; s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old)); open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout)
    finally: subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/demo.cpp', 'w').write(demo)
    lib = '_build/meson/libpyzero.a ' if link else ''
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# run with cwd = the repository after its build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -fno-access-control -D_GLIBCXX_ASSERTIONS -I src -I . -I /usr/include/python3.12 "$D/demo.cpp" {extra} {lib}-o "$T/demo" -lpthread -ldl -lpython3.12 || exit 3
R=$(pwd); cd "$T" && timeout 200 ./demo
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    import runpy; g = {'mk': mk}
    exec(open(sys.argv[1]).read(), g)
