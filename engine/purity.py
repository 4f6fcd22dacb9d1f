"""C15: effect analysis over the call graph of the crate (MIR), and ownership/auto-trait facts of its types."""
from interp import strip_generics
from emitter import Anchor, ENTRY
import common
import contract

PARSE = 'crate::contract::Contract::parse'
# effects beyond the function's arguments and result, by path of the std item
EFFECTS = [
    ('std::env::', 'the environment'), ('std::time::', 'the time'), ('core::time::Instant', 'the time'),
    ('std::net::', 'the network'), ('std::process::', 'processes'), ('std::io::stdio::', 'standard input or output'),
    ('std::io::_print', 'standard output'), ('std::io::_eprint', 'standard error'), ('std::io::stdin', 'standard input'), ('std::io::stdout', 'standard output'), ('std::io::stderr', 'standard error'),
    ('std::thread::local::', 'thread-local state'), ('std::thread::LocalKey', 'thread-local state'), ('std::thread::', 'threads'),
    ('std::os::', 'the operating system'), ('std::sys::', 'the operating system'),
    ('std::hash::random::', 'randomness'), ('std::collections::hash_map::RandomState', 'randomness'), ('std::random::', 'randomness'),
    ('core::fmt::rt::Argument::new_pointer', 'addresses'), ('core::fmt::Pointer', 'addresses'),
    ('std::panic::set_hook', 'global state'), ('std::panic::take_hook', 'global state'), ('std::alloc::set_alloc_error_hook', 'global state'),
    ('core::arch::', 'the processor'),
]
UNORDERED = ('std::collections::hash::map::', 'std::collections::hash::set::', 'std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map::', 'std::collections::hash_set::', 'hashbrown::')
ORDER_OPS = ('iter', 'keys', 'values', 'drain', 'into_iter', 'into_keys', 'into_values', 'iter_mut', 'values_mut', 'fmt', 'next', 'difference', 'union', 'intersection', 'symmetric_difference', 'extract_if')
FSREAD = ('read_to_string', 'read', 'open', 'metadata', 'try_exists', 'exists', 'canonicalize', 'symlink_metadata', 'new', 'len', 'is_file', 'is_dir')
LAZY = ('std::sync::once_lock::OnceLock', 'std::sync::lazy_lock::LazyLock', 'std::sync::OnceLock', 'std::sync::LazyLock', 'core::cell::once::OnceCell', 'core::cell::lazy::LazyCell', 'std::sync::poison::once::Once')
PURE_LAZY_INNER = ('regex::',)


def calls(x):
    if isinstance(x, list):
        for y in x:
            yield from calls(y)
    elif isinstance(x, dict):
        if 'decl' in x and 'name' in x:
            yield x
        for y in x.values():
            yield from calls(y)


def strings(x):
    if isinstance(x, list):
        for y in x:
            yield from strings(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from strings(y)
    elif isinstance(x, str):
        yield x


class Graph:
    def __init__(self, m):
        self.f = m['funcs']
        self.out = {}
        self.ext = {}
        for n, x in self.f.items():
            if not x.get('body'):
                continue
            es, xs = set(), []
            for b in x['body']['blocks']:
                if b is None:
                    continue
                for c in calls([b['st'], b['t']]):
                    g = self.f.get(c['name'])
                    if g and g.get('body'):
                        es.add(c['name'])
                    if not (g and g.get('local')):
                        xs.append((c, b.get('sp')))
                for st in b['st']:
                    for s in closures(st):
                        if s in self.f:
                            es.add(s)
            self.out[n] = es
            self.ext[n] = xs

    def reach(self, roots):
        seen, todo = set(), [r for r in roots if r in self.out]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for e in self.out[n]:
                if e not in seen:
                    todo.append(e)
        return seen


def closures(x):
    if isinstance(x, list):
        if len(x) >= 3 and x[0] == 'agg' and x[1] == 'closure' and isinstance(x[2], str):
            yield x[2]
        for y in x:
            yield from closures(y)


def effect(path, decl):
    for p in (path, decl):
        q = p[1:] if p.startswith('<') else p
        for e, w in EFFECTS:
            if q.startswith(e):
                return w
    return None


def short(n):
    return n.replace('crate::', '')[:120]


def check(m, prods, ck):
    f = m['funcs']
    if ENTRY not in f or PARSE not in f:
        raise Anchor('Contract::from_str or Contract::parse is missing')
    G = Graph(m)
    roots = {n for n, x in f.items() if x.get('local') and (x.get('pub') or x.get('trait') or n.startswith('crate::parser::parser::'))}
    every = G.reach(roots)
    textual = G.reach(roots - {PARSE})
    nsites = 0
    for n in sorted(every):
        for c, sp in G.ext[n]:
            if not f[n].get('local') and not f[n].get('closure') and not c['name'].startswith(('std', 'core', 'alloc', '<')):
                continue
            nsites += 1
            path, decl = strip_generics(c['path']), strip_generics(c['decl'])
            last = path.rsplit('::', 1)[-1]
            who = short(n)
            if path.startswith(('std::process::exit', 'std::process::abort', 'std::process::ExitCode')):
                ck.ok()
                continue
            w = effect(path, decl)
            if w is None and (path.startswith(('std::fs::', '<std::fs::')) or decl.startswith('std::fs::')):
                if last not in FSREAD and not decl.endswith(('::read_to_string', '::read', '::read_to_end')):
                    w = 'files (it changes them)'
                elif n in textual:
                    w = 'files although it is given a text'
            if w is None and any(path.lstrip('<&').startswith(u) or u in c['name'].split(' as ')[0][:80] for u in UNORDERED) and last in ORDER_OPS:
                w = 'the order of a hash table, which differs from run to run'
            if w is None and last in ('get_or_init', 'get_or_try_init', 'set', 'get_mut_or_init') and any(path.startswith(z) for z in LAZY):
                w = captured(m, c)
            if w:
                ck.bad(who, 'depends on or changes %s: calls %s' % (w, path))
            else:
                ck.ok()
    for s in m['statics']:
        inner = s.get('inner') or []
        lazy = any(s['ty'].startswith(z) for z in LAZY)
        pure = lazy and all(fr or t.startswith(PURE_LAZY_INNER) or t.startswith(('fn(', '{closure')) for t, fr in inner)
        if s['mut']:
            ck.bad(s['path'], 'is a mutable static')
        elif not s['freeze'] and not pure and not s['ty'].startswith(PURE_LAZY_INNER):
            ck.bad(s['path'], 'is %s state that can change (%s)' % ('thread-local' if s.get('thread_local') else 'global', s['ty']))
        else:
            ck.ok()
    for sp in m['unsafe']:
        ck.bad(site(sp), 'unsafe code')
    for n, x in f.items():
        if x.get('local') and x.get('unsafe') and not x.get('closure'):
            ck.bad(short(n), 'is an unsafe function')
    contract.other_files(m, ck)
    # what parsing returns can be used on any thread
    want = parsed_types(m)
    n = 0
    for a in m['adts']:
        if a['path'] not in want:
            continue
        n += 1
        for t in ('send', 'sync'):
            if a.get(t) is False:
                ck.bad(a['path'], 'cannot be %s threads (not %s)' % ('sent to' if t == 'send' else 'shared between', t.capitalize()))
            else:
                ck.ok()
    ck.cov['functions_scanned'] = len(every)
    ck.cov['call_sites_scanned'] = nsites
    ck.cov['statics'] = len(m['statics'])
    ck.cov['types_checked'] = n
    ck.cov['functions_analysed'] = sorted(short(x) for x in every if f[x].get('local'))[:150]
    if len(every) < 200 or nsites < 200 or n < 20:
        raise Anchor('too little code found: %d functions, %d call sites, %d types' % (len(every), nsites, n))
    ck.sample('%d functions reachable from the public API, %d calls of functions outside the crate' % (len(every), nsites))


def site(sp):
    """a source place without its line number"""
    s = str(sp)
    return s.split('/src/', 1)[-1].rsplit(':', 1)[0] if ':' in s else s


def captured(m, c):
    """does a lazily initialised global depend on the values of its first use"""
    if c['path'].endswith('::set'):
        return 'global state'
    for a in c.get('targs') or []:
        if a.startswith('{closure') and (m['types'].get(a) or {}).get('upvars'):
            return 'global state that keeps the arguments of its first use'
    return None


def parsed_types(m):
    """local types that a parsed value is made of"""
    seen, todo = set(), ['crate::contract::Contract', 'crate::error::Error', 'crate::ast::nodes::NodeProgram']
    byp = {}
    for n, t in m['types'].items():
        if t['k'] == 'adt':
            byp.setdefault(t['path'], []).append(t)
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for t in byp.get(p, []):
            for v in t.get('variants') or []:
                for fl in v['fields']:
                    todo += adts_in(m, fl['ty'], 0)
    return seen


def adts_in(m, ty, d):
    t = m['types'].get(ty)
    if not t or d > 8:
        return []
    if t['k'] == 'adt':
        r = [t['path']] if t.get('local') else []
        for a in t.get('args') or []:
            r += adts_in(m, a, d + 1)
        return r
    if t.get('inner'):
        return adts_in(m, t['inner'], d + 1)
    r = []
    for a in t.get('args') or []:
        r += adts_in(m, a, d + 1)
    return r


if __name__ == '__main__':
    import build, time
    m, p, key = build.load()
    ck = common.Check('C15', 'x')
    t = time.time()
    check(m, p, ck)
    print(ck.obl, ck.disch, len(ck.undet), len(ck.viol), ck.viol[:8], time.time() - t)
    print({k: v for k, v in ck.cov.items() if k != 'functions_analysed'}, ck.samples)

    G = Graph(m)
    f = m['funcs']
    e = G.reach({n for n, x in f.items() if x.get('local') and (x.get('pub') or x.get('trait') or n.startswith('crate::parser::parser::'))})
    r = [n for n in f if f[n].get('local') and f[n].get('body') and n not in e]
    print(len(r), r[:5], r[-5:])
