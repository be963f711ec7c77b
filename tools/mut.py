#!/usr/bin/env python3
"""Checker self-test on in-memory variants (nothing is written to /repo): `mut.py [IDs]`.
selftest/*.py define MUT = [(property, file, old, new)] (must be reported) and
KEEP = [(property or '*', file, old, new)] (behaviour-preserving, must stay quiet)."""
import sys, os, glob, io, contextlib, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
import check
from concurrent.futures import ProcessPoolExecutor


def one(job):
    kind, pid, edits = job
    ov = {}
    for file, old, new in edits:
        p = os.path.join('/repo', file)
        src = ov.get(file) or open(p).read()
        if src.count(old) < 1:
            return job, 'NOMATCH', ''
        ov[file] = src.replace(old, new, 1)
    import ast
    for f, s in ov.items():
        if f.endswith('.py'):
            try:
                ast.parse(s)
            except SyntaxError as e:
                return job, 'SYNTAX', str(e)
    try:
        rc, ctx, errs = check.runprop(pid, 'quick', overlay=ov, quiet=True)
    except Exception as e:
        return job, 'EXC', repr(e)
    base = base_und(pid)
    kn = check.known()
    new = [f for f in ctx.findings if not any(p == pid and r == f['rule'] and c == f['construct'] for p, r, c, t in kn)]
    return job, rc, '; '.join('%s:%s' % (f['rule'], f['construct']) for f in new)[:150] + (' UND+%d' % (len(ctx.undec) - base) if len(ctx.undec) != base else '') + ' '.join(errs)[:300]


_b = {}
def base_und(pid):
    if pid not in _b:
        rc, ctx, errs = check.runprop(pid, 'quick', quiet=True)
        _b[pid] = len(ctx.undec)
    return _b[pid]


def main():
    ids = [a.upper() for a in sys.argv[1:]]
    jobs = []
    have = [os.path.basename(f)[:-3].upper() for f in glob.glob(HERE + '/rules/[a-z]*.py')]
    for f in sorted(glob.glob(HERE + '/selftest/*.py')):
        d = runpy.run_path(f)
        for kind in ('MUT', 'KEEP'):
            for j in d.get(kind, []):
                pid, edits = j[0], (j[1] if isinstance(j[1], list) else [tuple(j[1:4])])
                for p in (have if pid == '*' else pid.split()):
                    if not ids or p in ids:
                        jobs.append((kind, p, edits))
    bad = 0
    with ProcessPoolExecutor(8) as ex:
        for job, rc, txt in ex.map(one, jobs):
            good = rc == (1 if job[0] == 'MUT' else 0)
            bad += not good
            if not good or '-v' in sys.argv or (job[0] == 'KEEP' and 'UND' in txt) or not ids:
                print('%s %s %s rc=%s %s :: %s -> %s | %s' % ('ok  ' if good else 'FAIL', job[0], job[1], rc, job[2][0][0].split('/')[-1], job[2][0][1][:60].strip().replace('\n', '\\n'), job[2][0][2][:60].strip().replace('\n', '\\n'), txt))
    print(len(jobs), 'jobs', bad, 'wrong')


if __name__ == '__main__':
    main()
