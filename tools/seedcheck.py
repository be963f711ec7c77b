#!/usr/bin/env python3
"""Run each planted bug's own check on a scratch copy with the bug applied: `seedcheck.py [ids]`; also tries the copy with a comment at the
end of the touched files (must stay quiet)."""
import sys, os, json, glob, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
import check
from concurrent.futures import ProcessPoolExecutor


def one(i):
    d = os.path.join(HERE, 'seeded' if os.path.exists(HERE + '/seeded/' + i) else 'kernelbugs', i)
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='sc', dir='/tmp')
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    p = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w + '/r', capture_output=True, text=True)
    if p.returncode:
        shutil.rmtree(w)
        return i, meta['property'], 'PATCH DOES NOT APPLY ' + p.stderr
    pid = meta['property']
    if not os.path.exists(HERE + '/rules/%s.py' % pid.lower()):
        shutil.rmtree(w)
        return i, pid, 'no check yet'
    rc, ctx, errs = check.runprop(pid, 'quick', quiet=True, repo=w + '/r')
    kn = check.known()
    new = [f for f in ctx.findings if not any(q == pid and r == f['rule'] and c == f['construct'] for q, r, c, t in kn)]
    shutil.rmtree(w)
    return i, pid, 'rc=%d %s' % (rc, '; '.join('%s:%s' % (f['rule'], f['construct']) for f in new)[:160] + ' '.join(errs)[:200])


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob(HERE + '/seeded/*') + glob.glob(HERE + '/kernelbugs/*'))
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(one, ids):
            print('%-34s %-4s %s' % r)
