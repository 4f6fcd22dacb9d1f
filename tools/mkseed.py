"""mkseed.py DEF.py: validates planted bugs and stores them under /verif/seeded.
DEF.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = ROOT + '/seeded'
WT = '/tmp/seedwt'
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1
unset CARGO_TARGET_DIR RUSTFLAGS
work=$(mktemp -d)
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nscilla-parser = { path = "%s" }\\n[workspace]\\n' "$repo" > "$work/Cargo.toml"
cd "$work" && CARGO_TARGET_DIR="$repo/target" timeout 250 cargo run --offline -q
rc=$?
rm -rf "$work"
exit $rc
'''


def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.exists(WT):
        sh('cp -a /repo %s' % WT)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(V, s['id'])
        sh('git checkout -q -- . && git fetch -q /repo main && git reset -q --hard FETCH_HEAD', WT)
        for f, a, b in s['edits']:
            t = open(os.path.join(WT, f)).read()
            assert t.count(a) == 1, (s['id'], f, t.count(a), a)
            open(os.path.join(WT, f), 'w').write(t.replace(a, b))
        patch = sh('git diff', WT).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.rs', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash -c "export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1; cargo test --workspace --no-fail-fast --offline 2>&1"', WT, 900)
        ok = r.stdout.count('test result: ok') and 'FAILED' not in r.stdout and 'error' not in r.stdout.split('Running')[0]
        r1 = sh('bash %s/demo.sh' % d, WT)
        sh('git checkout -q -- . && touch src/*/*.rs src/*/*.lalrpop src/*.rs', WT)
        r0 = sh('bash %s/demo.sh' % d, WT)
        good = bool(ok) and r1.returncode != 0 and r0.returncode == 0
        print(s['id'], 'OK' if good else 'BAD', 'tests', bool(ok), 'demo patched', r1.returncode, 'clean', r0.returncode, flush=True)
        if not good:
            print(r.stdout[-800:] if not ok else '', r1.stdout[-300:], r1.stderr[-500:], r0.stdout[-300:], r0.stderr[-1500:])
            shutil.move(d, '/tmp/badseed-' + s['id']) if not os.path.exists('/tmp/badseed-' + s['id']) else shutil.rmtree(d)


main()
