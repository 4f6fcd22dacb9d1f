"""Builds what the rules look at from /repo's current working tree: the LALRPOP-generated parser
(productions and semantic actions) and the exported MIR of the crate."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
NTGT = os.path.join(CACHE, 'ntgt')
MIRX = os.path.join(CACHE, 'mirx')


# generic functions of the public interface that the crate itself does not use are exported through an instance
INST = '''
#[allow(warnings)]
fn __instance_token_text<'input>(t: crate::parser::lexer::Token<&'input str>) -> String { t.into() }
'''


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('command failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def sysroot():
    return run(['rustc', '+nightly', '--print', 'sysroot']).strip()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def read(p, mode='rb'):
    with open(p, mode) as f:
        return f.read()


def config_key():
    parts = []
    for n in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        p = os.path.join(REPO, n)
        parts.append(read(p) if os.path.exists(p) else b'-')
    return sha(*parts[:1], *parts[2:])


def build_driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    key = sha(read(src), run(['rustc', '+nightly', '-vV']))
    kf = MIRX + '.key'
    if os.path.exists(MIRX) and os.path.exists(kf) and read(kf, 'r') == key:
        return
    os.makedirs(CACHE, exist_ok=True)
    run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', MIRX])
    with open(kf, 'w') as f:
        f.write(key)


def build_deps(force=False):
    """nightly metadata of the dependencies and the repository's own build script, built by cargo."""
    key = config_key() + sha(run(['rustc', '+nightly', '-vV']))
    kf = os.path.join(CACHE, 'ntgt.key')
    if not force and os.path.exists(kf) and read(kf, 'r') == key and os.path.exists(os.path.join(CACHE, 'ntgt.json')):
        return
    env = dict(os.environ, CARGO_TARGET_DIR=NTGT)
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    env.pop('RUSTFLAGS', None)
    if os.path.isdir(NTGT):
        shutil.rmtree(NTGT)
    os.makedirs(CACHE, exist_ok=True)
    # the library itself is not needed, only its dependencies and its build script; but cargo has no
    # way to stop there, so an error in the library alone is not fatal here
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json'], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    arts, bs = {}, None
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact':
            t = m['target']
            if 'custom-build' in t['kind'] and 'scilla' in m['package_id']:
                bs = [f for f in m['filenames']]
            elif t['kind'] in (['lib'], ['proc-macro']):
                for f in m['filenames']:
                    if f.endswith('.rmeta') or f.endswith('.so'):
                        arts.setdefault(t['name'], []).append(f)
    if not bs or 'lalrpop_util' not in arts:
        raise BuildError('cargo +nightly check failed:\n' + r.stderr[-4000:])
    with open(os.path.join(CACHE, 'ntgt.json'), 'w') as f:
        json.dump({'arts': arts, 'build_script': bs}, f)
    with open(kf, 'w') as f:
        f.write(key)


def gen_parser(outdir):
    """Runs the repository's own build script (LALRPOP) on the current grammar; cached by content."""
    meta = json.loads(read(os.path.join(CACHE, 'ntgt.json')))
    gram = []
    for p in sorted(glob.glob(REPO + '/src/**/*.lalrpop', recursive=True)):
        gram += [os.path.relpath(p, REPO), read(p)]
    key = sha(config_key(), read(os.path.abspath(__file__)), *gram)
    cdir = os.path.join(CACHE, 'parser-' + key[:24])
    if not os.path.exists(cdir + '/parser.rs'):
        tmp = tempfile.mkdtemp(prefix='lalrpop-', dir=CACHE)
        try:
            exe = [f for f in meta['build_script'] if os.access(f, os.X_OK)][0]
            env = dict(os.environ, OUT_DIR=tmp, CARGO_MANIFEST_DIR=REPO)
            run([exe], cwd=REPO, env=env)
            full = read(os.path.join(tmp, 'parser', 'parser.rs'), 'r')
            text, prods, starts = trim(full)
            text += INST
            terms = terminals(full)
            os.makedirs(cdir, exist_ok=True)
            with open(cdir + '/prods.json', 'w') as f:
                json.dump({'prods': prods, 'starts': starts, 'terms': terms}, f)
            with open(cdir + '/parser.rs.tmp', 'w') as f:
                f.write(text)
            os.rename(cdir + '/parser.rs.tmp', cdir + '/parser.rs')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(outdir + '/parser', exist_ok=True)
    shutil.copy(cdir + '/parser.rs', outdir + '/parser/parser.rs')
    return json.loads(read(cdir + '/prods.json')), key


def trim(full):
    """Keeps the semantic actions and the public parser types; drops the LR tables (hundreds of
    thousands of lines), whose correctness is LALRPOP's.  The productions are read from the tables'
    reduce functions."""
    out, prods, starts = [], {}, {}
    i = 0
    modre = re.compile(r'^mod (__parse__(\w+)) \{$', re.M)
    prodre = re.compile(r'^        // (.*) => (ActionFn\((\d+)\)|(?:\S.*));$', re.M)
    pos = 0
    for m in modre.finditer(full):
        mod, name = m.group(1), m.group(2)
        use = re.compile(r'^pub(?:\([a-z]+\))? use self::%s::(\w+);$' % re.escape(mod), re.M).search(full, m.end())
        seg = full[m.start():use.start()]
        out.append(full[pos:m.start()])
        ps = []
        for pm in re.finditer(r'^ {8,20}// (.+) => (ActionFn\(\d+\)|\S.*);$', seg, re.M):
            prod, act = pm.groups()
            at = top_eq(prod)
            if at is None:
                continue
            lhs, rhs = prod[:at], prod[at + 3:].strip()
            am = re.match(r'ActionFn\((\d+)\)$', act)
            ps.append([lhs, split_syms(rhs), int(am.group(1)) if am else None])
        starts[name] = ps
        hdr = re.search(r'^    pub struct %sParser \{.*?^    \}$' % re.escape(name), seg, re.M | re.S)
        imp = re.search(r'^    impl %sParser \{.*?^    \}$' % re.escape(name), seg, re.M | re.S)
        if not hdr or not imp:
            raise BuildError('unexpected shape of generated parser for ' + name)
        body = imp.group(0)
        # keep signatures, drop the bodies
        body = re.sub(r'(pub fn new\(\) -> %sParser \{).*?(?=^        \})' % re.escape(name), r'\1 loop {} \n', body, flags=re.M | re.S)
        body = re.sub(r'(-> Result<[^\n]*\n        \{).*?(?=^        \})', r'\1 loop {} \n', body, flags=re.M | re.S)
        pre = re.search(r'^mod .*?use super::__ToTriple;$', seg, re.M | re.S).group(0)
        out.append(pre + '\n    pub struct %sParser { _priv: (), }\n' % name + body + '\n}\n')
        pos = use.start()
    out.append(full[pos:])
    for n, ps in starts.items():
        for p in ps:
            prods.setdefault(p[0], [])
            if p[1:] not in prods[p[0]]:
                prods[p[0]].append(p[1:])
    return '#[allow(warnings)]\n' + ''.join(out) if False else ''.join(out), prods, {n: sorted({p[0] for p in ps}) for n, ps in starts.items()}


def quoted(s, i):
    """end of the quoted symbol that starts at i, or None"""
    m = re.match(r'r(#*)"', s[i:])
    if m:
        return s.index('"' + m.group(1), i + len(m.group(0))) + 1 + len(m.group(1))
    if s[i] == '"':
        j = i + 1
        while j < len(s) and s[j] != '"':
            j += 2 if s[j] == '\\' else 1
        return j + 1
    return None


def top_eq(prod):
    """position of the ' = ' that separates the sides of a production"""
    i = 0
    while i < len(prod):
        q = quoted(prod, i)
        if q:
            i = q
        elif prod.startswith(' = ', i) or (prod.startswith(' =', i) and i + 2 == len(prod)):
            return i
        else:
            i += 1
    return None


def terminals(seg):
    """terminal as written in the grammar -> variant of the token type"""
    m = re.search(r'const __TERMINAL: &\[&str\] = &\[(.*?)^    \];', seg, re.M | re.S)
    f = re.search(r'fn __token_to_integer<.*?^    \}', seg, re.M | re.S)
    if not m or not f:
        raise BuildError('no terminals in the generated parser')
    ts = re.findall(r'^        r###"(.*?)"###,$', m.group(1), re.M)
    res = {}
    for pat, i in re.findall(r'^\s*(\S.*?) if true => Some\((\d+)\),$', f.group(0), re.M):
        res[ts[int(i)]] = re.sub(r'\(.*', '', pat).strip().rsplit('::', 1)[1]
    if len(res) != len(ts):
        raise BuildError('terminals not understood')
    return res


def split_syms(rhs):
    """'A, "(", r#"x"#, B?' -> list of symbols (commas inside quotes do not separate)."""
    res, cur, i, depth = [], '', 0, 0
    n = len(rhs)
    while i < n:
        c = rhs[i]
        m = re.match(r'r(#+)"', rhs[i:])
        if m:
            end = rhs.index('"' + m.group(1), i + len(m.group(0))) + 1 + len(m.group(1))
            cur += rhs[i:end]
            i = end
            continue
        if c == '"':
            j = i + 1
            while j < n and rhs[j] != '"':
                j += 2 if rhs[j] == '\\' else 1
            cur += rhs[i:j + 1]
            i = j + 1
            continue
        if c in '(<':
            depth += 1
        elif c in ')>':
            depth -= 1
        if c == ',' and depth == 0:
            res.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        res.append(cur.strip())
    return res


def export(out_json, work, grammar=True):
    meta = json.loads(read(os.path.join(CACHE, 'ntgt.json')))
    prods, gkey = gen_parser(work)
    toml = read(os.path.join(REPO, 'Cargo.toml'), 'r')
    ed = re.search(r'^\s*edition\s*=\s*"(\d+)"', toml, re.M)
    ver = re.search(r'^\s*version\s*=\s*"([^"]+)"', toml, re.M)
    env = dict(os.environ, OUT_DIR=work, MIRX_OUT=out_json, CARGO_MANIFEST_DIR=REPO, CARGO_PKG_NAME='scilla-parser',
               CARGO_PKG_VERSION=ver.group(1) if ver else '0', CARGO_CRATE_NAME='scilla_parser',
               LD_LIBRARY_PATH=os.path.join(sysroot(), 'lib'), RUSTC_BOOTSTRAP='1')
    args = [MIRX, '--crate-name', 'scilla_parser', '--edition', ed.group(1) if ed else '2015', '--crate-type', 'lib', '--emit', 'metadata',
            '-o', os.path.join(work, 'libscilla_parser.rmeta'), '-Zmir-opt-level=0', '-Zalways-encode-mir', '-Coverflow-checks=on', '-Zub-checks=no', '-Cdebug-assertions=on',
            '--cap-lints', 'allow', '--sysroot', sysroot()]
    for d in sorted({os.path.dirname(f) for fs in meta['arts'].values() for f in fs}):
        args += ['-L', 'dependency=' + d]
    for dep in re.findall(r'^\s*([A-Za-z0-9_-]+)\s*=', re.search(r'^\[dependencies\](.*?)(?=^\[|\Z)', toml, re.M | re.S).group(1), re.M):
        d = dep.replace('-', '_')
        fs = [f for f in meta['arts'].get(d, []) if f.endswith('.rmeta')] or meta['arts'].get(d, [])
        # several versions may be present (build dependencies); the one cargo built for the library is the last
        if fs:
            args += ['--extern', '%s=%s' % (d, fs[-1])]
    args.append(os.path.join(REPO, 'src', 'lib.rs'))
    run(args, env=env, cwd=REPO)
    return prods, gkey


def setup():
    os.makedirs(CACHE, exist_ok=True)
    build_driver()
    build_deps()


def src_key():
    parts = [config_key(), read(os.path.abspath(__file__)), read(os.path.join(VERIF, 'driver', 'main.rs'))]
    for root, ds, fs in sorted(os.walk(os.path.join(REPO, 'src'))):
        for f in sorted(fs):
            p = os.path.join(root, f)
            parts += [os.path.relpath(p, REPO), read(p)]
    return sha(*parts)


def load():
    """(mir, prods) for the current tree.  The export is cached under a hash of every source file."""
    setup()
    key = src_key()
    cdir = os.path.join(CACHE, 'mir-' + key[:24])
    j = os.path.join(cdir, 'mir.json')
    if not os.path.exists(j):
        work = tempfile.mkdtemp(prefix='mir-', dir=CACHE)
        try:
            tmp = os.path.join(work, 'mir.json')
            prods, gkey = export(tmp, work)
            os.makedirs(cdir, exist_ok=True)
            with open(cdir + '/prods.json', 'w') as f:
                json.dump(prods, f)
            os.rename(tmp, j)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        # keep the cache small
        old = sorted(glob.glob(CACHE + '/mir-*/mir.json'), key=os.path.getmtime)
        for o in old[:-6]:
            if o != j:
                shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    return json.loads(read(j)), json.loads(read(cdir + '/prods.json')), key


if __name__ == '__main__':
    setup()
    m, p, k = load()
    print('mir export %s: %d functions, %d types, %d nonterminals' % (k[:12], len(m['funcs']), len(m['types']), len(p['prods'])))
