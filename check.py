#!/usr/bin/env python3
"""Static checks for pyebsdindex.  `check.py --property ID [--tier quick|thorough]`, `check.py --setup`, `check.py --all`.

Every run parses /repo's current working tree, analyses it (nothing of pyebsdindex is imported or
executed) and decides the obligations of one property.  Exit 0: no obligation violated (undecided ones are
listed), 1: violated, 2: nothing could be decided.
"""
import argparse, glob, importlib, json, os, signal, sys, time, traceback
try:
    import numpy                                                  # noqa: F401  (meaning of array operations in sa/npeval.py)
except ImportError:
    VT = '/opt/veriftools/pyvenv/bin/python'
    if __name__ == '__main__' and os.path.exists(VT) and not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(VT, [VT] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
from sa.ctx import Ctx                                            # noqa: E402
from sa.program import AnalysisError                              # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN '):
                head, _, text = line[6:].partition(' :: ')
                d = dict(x.split('=', 1) for x in head.split())
                out.append((d['property'], d['rule'], d['construct'], text))
    return out


BUDGET = dict(quick=200, thorough=280)


class Budget(Exception):
    pass


def _alarm(*a):
    raise Budget('analysis budget exceeded')


def runprop(pid, tier, overlay=None, quiet=False, repo=REPO):
    """returns (exit code, ctx)"""
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    ctx = Ctx(repo, tier, overlay)
    errors = []
    mod = importlib.import_module('rules.' + pid.lower())
    only = os.environ.get('VERIF_RULE')
    for name in [n for n in vars(mod) if n.startswith('r_')]:
        if only and name != only:
            continue
        t1 = time.time()
        try:
            ctx.current = name
            signal.setitimer(signal.ITIMER_REAL, BUDGET[tier])
            getattr(mod, name)(ctx)
        except AnalysisError as e:
            errors.append('%s: %s' % (name, e))
        except Exception as e:
            errors.append('%s: internal %s: %s\n%s' % (name, type(e).__name__, e, traceback.format_exc(limit=-6)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.times[name] = round(time.time() - t1, 2)
    errors += ctx.shortfalls()
    kn = [(r, c, t) for p, r, c, t in known() if p == pid]
    viol, found = [], []
    for f in ctx.findings:
        k = [t for r, c, t in kn if r == f['rule'] and c == f['construct']]
        (found if k else viol).append(f)
    if not quiet:
        for f in found:
            print('KNOWN-FINDING: property=%s %s %s: %s' % (pid, f['rule'], f['construct'], f['msg']))
        for r, c, t in kn:
            if not any(f['rule'] == r and f['construct'] == c for f in ctx.findings):
                print('note: known finding %s %s no longer occurs' % (r, c))
        for r, i, w in ctx.undec[:20]:
            print('undecided: %s %s: %s' % (r, i, w))
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(explanation=(mod.__doc__ or '').strip(),
                                exhaustive=not ctx.undec,
                                obligations=len(ctx.oks) + len(ctx.findings) + len(ctx.undec),
                                discharged=len(ctx.oks), undecided=len(ctx.undec),
                                known_findings=len(found),
                                modules_parsed=len(ctx.progs()[0].modules), functions_in_program=len(ctx.progs()[0].funcs),
                                functions_analysed=sorted(ctx.analysed), events_examined=ctx.nevents,
                                rules={r: dict(decided=sum(1 for o in ctx.oks if o[0] == r), violated=sum(1 for f in ctx.findings if f['rule'] == r),
                                               undecided=sum(1 for u in ctx.undec if u[0] == r), means=ctx.means.get(r, '')) for r in ctx.rulenames()},
                                instances=['%s | %s%s' % (r, i, ' | ' + str(d) if d else '') for r, i, d in ctx.oks][:400],
                                undecided_instances=['%s | %s | %s' % u for u in ctx.undec][:100],
                                rule_seconds=ctx.times, analysis_errors=errors),
                  wall_s=round(time.time() - t0, 2), violations=len(viol), assumptions=list(getattr(mod, 'ASSUMES', [])))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations decided, %d undecided, %d violated (%d known) in %.1fs' % (
            pid, len(ctx.oks), len(ctx.undec), len(ctx.findings), len(found), time.time() - t0))
    rep = os.path.join(HERE, 'evidence', pid + '.report.txt')
    if viol:
        if not quiet:
            with open(rep, 'w') as f:
                for v in viol:
                    f.write('%s  [%s] %s\n    %s\n' % (v['loc'], v['rule'], v['construct'], v['msg']))
            for v in viol:
                print('  %s [%s] %s: %s' % (v['loc'], v['rule'], v['construct'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1, ctx, errors
    if not quiet and os.path.exists(rep):
        os.unlink(rep)
    if errors and not quiet:
        for e in errors:
            print('ANALYSIS-INCOMPLETE: ' + e)
    if not ctx.oks:                     # nothing at all could be decided: no answer
        return 2, ctx, errors
    return 0, ctx, errors


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--all', action='store_true')
    a = ap.parse_args()
    if a.setup:
        from sa.program import Program
        p = Program(REPO)
        print('setup: parsed %d modules, %d functions' % (len(p.modules), len(p.funcs)))
        return 0
    if a.all:
        import subprocess
        from concurrent.futures import ThreadPoolExecutor
        ids = sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(HERE, 'rules', '[a-z]*.py')))
        def one(i):
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--property', i, '--tier', a.tier], capture_output=True, text=True)
            return i, r
        bad = 0
        with ThreadPoolExecutor(8) as ex:
            for i, r in ex.map(one, ids):
                print('== %s exit %d' % (i, r.returncode))
                print('\n'.join('   ' + x for x in (r.stdout + r.stderr).strip().splitlines()))
                bad |= r.returncode
        return 1 if bad else 0
    return runprop(a.property.upper(), a.tier)[0]


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
