"""runs the property's check on every planted bug (in a scratch copy); lists what is missed.  args: ids or properties"""
import os, subprocess, sys, json, glob
WT = '/tmp/seedchk'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(WT):
    sh('git clone -q /repo %s && cp /repo/Cargo.lock %s' % (WT, WT))
for d in sorted(glob.glob(ROOT + '/seeded/*')):
    sid = os.path.basename(d)
    pid = json.load(open(d + '/meta.json'))['property']
    if sys.argv[1:] and sid not in sys.argv[1:] and pid not in sys.argv[1:]:
        continue
    sh('git checkout -q -- . && git fetch -q origin main && git reset -q --hard FETCH_HEAD', cwd=WT)
    a = sh('git apply %s/patch.diff' % d, cwd=WT)
    r = sh('python3 engine/run.py %s' % pid, cwd=ROOT, env=dict(os.environ, VERIF_REPO=WT))
    print(sid, 'CAUGHT' if r.returncode == 1 else 'missed(%d)' % r.returncode, a.stderr[:100], (r.stdout.strip().splitlines() or [r.stderr[-300:]])[0][:230], flush=True)
