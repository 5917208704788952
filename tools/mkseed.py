#!/usr/bin/env python3
"""mkseed.py SPEC.py : creates /verif/seeded/<id>/ from a spec (edits against /repo HEAD + demo source). Dev tool, used by no check."""
import json, os, subprocess, sys
WT = os.environ.get('WT', '/tmp/wt')
DEMO = '''#!/bin/bash
# run in the repository root after the build
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w -fopenmp %s-include /opt/vp/support/prefix.hpp -Ilib/include -Ilib/src "$D/demo.cpp" _build/lib/libtsetlini_static.a -o "$W/demo"
"$W/demo"
'''


def git(*a):
    return subprocess.run(['git', '-C', WT] + list(a), check=True, stdout=subprocess.PIPE, text=True).stdout


def make(id, prop, edits, demo, needs, breaks, flags='', demo_sh=None):
    git('checkout', '-q', '--', '.')
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        n = 1
        if isinstance(old, tuple):
            old, n = old
        parts = s.split(old)
        assert len(parts) >= 2, (id, f, 'not found', old)
        if n == 1:
            assert len(parts) == 2, (id, f, 'ambiguous', len(parts) - 1)
            s = s.replace(old, new)
        else:                       # n-th occurrence, counted from 1, given as ('text', -k)
            k = -n
            s = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, 'w').write(s)
    d = os.path.join('/verif/seeded', id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(git('diff'))
    git('checkout', '-q', '--', '.')
    open(os.path.join(d, 'demo.sh'), 'w').write(demo_sh or DEMO % (flags + ' ' if flags else ''))
    if demo:
        open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
