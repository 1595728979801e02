#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in bugs/*.py (run by hand; no check uses it)."""
import glob, json, os, shutil, subprocess, sys, difflib
here = os.path.dirname(os.path.abspath(__file__))
out = '/verif/seeded'
defs = {}
def bug(id, prop, edits, needs, breaks, main, features=''):
    assert id not in defs, id
    defs[id] = (prop, edits, needs, breaks, main, features)
for f in sorted(glob.glob(here + '/bugs/*.py')):
    exec(compile(open(f).read(), f, 'exec'))
only = sys.argv[1:]
for id, (prop, edits, needs, breaks, main, features) in defs.items():
    if only and id not in only: continue
    d = f'{out}/{id}'
    os.makedirs(d, exist_ok=True)
    diff = ''
    by = {}
    for e in edits:
        by.setdefault(e[0], []).append(e[1:])
    for f, l in by.items():
        src = open('/repo/' + f).read(); new = src
        for e in l:
            cnt = e[2] if len(e) > 2 else 1
            assert new.count(e[0]) == cnt, (id, f, e[0], new.count(e[0]))
            new = new.replace(e[0], e[1])
        diff += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write('mod common;\nuse common::*;\n' + main)
    for c in ('common.rs', 'Cargo.toml.in', 'Cargo.lock'):
        shutil.copy(f'{here}/{c}', d)
    open(d + '/demo.sh', 'w').write(open(here + '/demo.sh').read().replace('FEATURES', features))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
print(len(defs))
