"""refac.py [names] [-- props]: applies behaviour-preserving edits to a copy of /repo and runs the checks, which must stay quiet"""
import os, subprocess, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'engine'))
WT = '/tmp/refacwt'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, cwd=None, t=900, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)


def main():
    a = sys.argv[1:]
    props = a[a.index('--') + 1:] if '--' in a else None
    only = a[:a.index('--')] if '--' in a else a
    import registry
    if not os.path.exists(WT):
        sh('git clone -q /repo %s' % WT)
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refactors', '*.py'))):
        ns = {}
        exec(open(f).read(), ns)
        for r in ns['REFACTORS']:
            if only and r['id'] not in only and os.path.basename(f)[:-3] not in only:
                continue
            sh('git checkout -q -- . && git fetch -q /repo main && git reset -q --hard FETCH_HEAD', WT)
            bad = False
            for fn, old, new in r['edits']:
                p = os.path.join(WT, fn)
                t = open(p).read()
                if t.count(old) < 1:
                    print(r['id'], 'EDIT DOES NOT APPLY', fn, repr(old[:60]))
                    bad = True
                    break
                open(p, 'w').write(t.replace(old, new) if r.get('all') else t.replace(old, new, 1))
            if bad:
                continue
            if os.environ.get('TEST'):
                x = sh('CARGO_TARGET_DIR=/tmp/refactarget cargo test --offline 2>&1 | grep -E "^error|test result|FAILED|panicked"', WT)
                print(r['id'], ' '.join(x.stdout.split())[:300] if 'error' in x.stdout or 'FAILED' in x.stdout else 'tests pass')
            for p in (props or r.get('props') or sorted(registry.CHECKS)):
                if p not in registry.CHECKS:
                    continue
                x = sh('python3 engine/run.py %s' % p, ROOT, env=dict(os.environ, VERIF_REPO=WT))
                print('%-22s %s rc=%d %s' % (r['id'], p, x.returncode, 'quiet' if x.returncode == 0 else 'ALARM'), x.stdout.strip().split('\n')[-1 if x.returncode == 0 else 0][:260], x.stderr.strip().split('\n')[-1][:200], flush=True)


main()
