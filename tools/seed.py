#!/usr/bin/env python3
"""Make planted bugs: `seed.py SPEC.py [ids]`, SPEC defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=source)}.
Works in a scratch copy of /repo under /tmp, keeps only bugs whose demo passes before and fails after."""
import sys, os, json, shutil, subprocess, runpy, tempfile
OUT = '/verif/seeded'
HEAD = '''#!/bin/bash
# run with cwd = the repository: exit 0 when the property holds here, non-zero when it is broken
export HOME=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_DISABLE_JIT=%s RAY_USAGE_STATS_ENABLED=0 PYTHONPATH="$PWD"
trap '/bin/rm -rf "$HOME"' EXIT
timeout 280 /opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"
'''


def run(d, cwd):
    return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=cwd, capture_output=True, text=True)


def main():
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:] or list(specs)
    for i in ids:
        s = specs[i]
        w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        d = w + '/d'
        os.mkdir(d)
        open(d + '/demo.py', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(HEAD % (0 if s.get('jit') else 1))
        for x in s.get('files', ()):  # libraries the demo needs beside it
            shutil.copy(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])), 'lib', x), d)
        a = run(d, w + '/r')
        if a.returncode:
            print(i, 'DEMO FAILS UNCHANGED', (a.stdout + a.stderr)[-1500:])
            shutil.rmtree(w)
            continue
        ok = True
        for f, old, new in s['edits']:
            t = open(w + '/r/' + f).read()
            if t.count(old) != 1:
                print(i, 'MATCHES', t.count(old), repr(old))
                ok = False
            open(w + '/r/' + f, 'w').write(t.replace(old, new, 1))
        p = subprocess.run(['git', 'diff'], cwd=w + '/r', capture_output=True, text=True).stdout
        b = run(d, w + '/r')
        if ok and b.returncode:
            o = os.path.join(OUT, i)
            shutil.rmtree(o, ignore_errors=True)
            shutil.copytree(d, o)
            open(o + '/patch.diff', 'w').write(p)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
            print(i, 'kept;', (b.stdout + b.stderr).strip().splitlines()[-1][:150])
        else:
            print(i, 'NOT KEPT rc', b.returncode, b.stdout[-300:])
        shutil.rmtree(w)


main()
