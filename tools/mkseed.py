#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what' FILE < json [[old,new],...]  : build seeded/ID/patch.diff + meta.json from text replacements (in a scratch clone)."""
import sys, os, json, subprocess
def mk(sid, prop, needs, what, edits, demo):
    """edits: [(file, old, new)], demo: C++ source of a program returning nonzero on failure"""
    d = '/verif/seeded/' + sid; os.makedirs(d, exist_ok=True)
    w = '/tmp/mkseed'
    subprocess.run('rm -rf /tmp/mkseed && git clone -q /repo /tmp/mkseed', shell=True, check=True)
    for f, o, n in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(o) == 1, (sid, f, o, s.count(o))
        open(p, 'w').write(s.replace(o, n))
    df = subprocess.run(['git', '-C', w, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(df)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Builds and runs demo.cpp against the headers of the current directory's tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
eig=$(ls -d /usr/include/eigen3 /usr/local/include/eigen3 2>/dev/null | head -1)
timeout 250 g++ -std=c++20 -O1 -w -I"$PWD/include" -I"${eig:-/usr/include/eigen3}" "$here/demo.cpp" -o "$t/demo" || exit 3
timeout 40 "$t/demo"
''')
    subprocess.run('rm -rf /tmp/mkseed', shell=True)
