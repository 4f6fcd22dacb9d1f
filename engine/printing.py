"""C18: what printing the name nodes of the syntax tree gives.

Every `fmt` of a name node is interpreted on an arbitrary node of its type; each outcome's text is compared with the
written name the node stands for (the specification is emitter.names), under what the path assumes about the node."""
import common
from interp import *
import emitter
from strings import witness, text
from emitter import A, WMD, V, names, field_index, has_top, Anchor, panic_text, lit_of

NAMES = ['NodeByteStr', 'NodeTypeNameIdentifier', 'NodeMetaIdentifier', 'NodeVariableIdentifier']
FMT = '<%s as core::fmt::Display>::fmt'

def one(m, job):
    n, ty = job
    I = Interp(m)
    where = 'Display of ' + ty.replace(A, '')
    res = []
    try:
        if I.ty(ty)['k'] == 'ref':
            raise Anchor('reference')
        root = ('T', 0, 'fmtr')
        st = St({root: ('fmtr', lit(''))})
        node = I.sym(('n',), ty)
        outs = I.exec_fn(st, n, [('ref', ('V', node), ()), ('ref', root, ())], 0, 0)
        for o in outs:
            if o[0] == 'undet' or o[1].und:
                res.append(('unknown', where, str(o[2])[:200] if o[0] == 'undet' else str(o[1].und[0])))
                continue
            if o[0] == 'panic':
                res.append(('bad', where, 'panics: ' + panic_text(o[2])))
                continue
            t = o[1].mem.get(root, top('text'))
            t = t[1] if t[0] == 'fmtr' else t
            if t[0] != 's' or has_top(t):
                res.append(('unknown', where, 'text not known'))
                continue
            for fc, want in names(I, ('n',), ty, o[1].facts):
                what = describe(I, fc)
                if t[1] == want:
                    res.append(('ok', where, '%s -> %s' % (what or 'any', emitter.Match(I, '').pieces(want))))
                    continue
                w = witness(fc, t[1], want)
                if w == '?':
                    res.append(('unknown', where, 'texts %s and %s not compared' % (t[1], want)))
                else:
                    res.append(('bad', where, '%s prints as "%s", not as written: "%s" (with %s)' % (what or 'the node', text(t[1], w), text(want, w), ', '.join(sorted(repr(x) for x in w.values())) or 'no names')))
    except Budget as e:
        res.append(('unknown', where, str(e)))
    return res, sorted(I.analysed), dict(I.unmodelled)


# ------------------------------------------------------------------ nodes with known texts
TEXTS = {'id': ['x', 'foo', 'a_b', 'a__b', 'fooBar', 'x1', 'trailing_', 'b' * 40, 'c' * 70, 'event', 'byStr'],
         'special': ['_', '_sender', '_this_address', '_x', '__', '_A1'],
         'type': ['Foo', 'Event', 'ByStr', 'ByStrX', 'T', 'A_b', 'Int32', 'F' * 70, 'MAP', 'Foo_', 'ByStr20', 'ByStr032', 'ByStr99999999999999999999'],
         'hex': ['0x1a', '0x', '0x1A', '0xabcdefabcdefabcdefabcdefabcdefabcdefabcd', '0x00', '0x' + '12' * 32, '0x01'],
         'bystr': ['ByStr20', 'ByStr1', 'ByStr032', 'ByStr99999999999999999999'],
         'any': ['x', 'Foo', '_x', '0x1a', 'ByStr20', '"text"', '"a..b"', '"%s {} \\n"', '-12', 'a.b', '.', '', ' ', '\u4e2d', '"\u00e9"', '++', 'x' * 300]}


def from_code(texts, ints):
    """further texts by class, made of what occurs in the code"""
    import scenes
    out = {k: [] for k in TEXTS}
    for t in texts:
        w = [t, 'x' + t, t + 'x', 'x' + t + 'y', t + t, 'x' + t + t + 'y', t * 3]
        out['any'] += w + ['"%s"' % x for x in w]
        out['id'] += [x for x in w + ['x_' + t] if scenes.is_id(x)]
        out['type'] += [x for x in w + ['X' + t, 'X' + t + 'y', t[:1].upper() + t[1:]] if scenes.is_type(x)]
        out['special'] += [x for x in w + ['_' + t, '_x' + t] if x.startswith('_') and set(x) <= scenes.WORD]
        out['hex'] += [x for x in w + ['0x' + t, '0xa' + t, '0x' + t * 2] if x.startswith('0x') and set(x[2:]) <= set('0123456789abcdefABCDEF')]
    for n in ints:
        for d in (-1, 0, 1):
            m = n + d
            out['any'].append('x' * m)
            out['id'].append('x' * m)
            out['special'].append('_' + 'x' * (m - 1))
            out['type'].append('X' * m)
            out['hex'].append('0x' + 'ab' * (m // 2) + 'c' * (m % 2))
            out['bystr'].append('ByStr' + '1' * max(1, m - 5))
    return {k: TEXTS[k] + sorted(set(v) - set(TEXTS[k])) for k, v in out.items()}


def nodes(I, ty, path=('n',)):
    """[(number of texts, classes, build(texts) -> value)]: the nodes of the type up to their texts"""
    if I.is_string(ty):
        return [(1, ['any'], lambda ts: lit(ts[0]))]
    k = I.ty(ty)
    if k.get('box'):
        return [(n, c, lambda ts, b=b: ('box', b(ts))) for n, c, b in nodes(I, k['args'][0], path)]
    out = []
    short = ty.split('<')[0].rsplit('::', 1)[1]
    for vi, v in enumerate(k.get('variants') or []):
        parts = [[]]
        for i, f in enumerate(v['fields']):
            p = path + (('f', vi, i),)
            if k.get('path') == WMD and f['name'] != 'node':
                ch = [(0, [], lambda ts, p=p, t=f['ty']: I.sym(p, t))]
            else:
                ch = nodes(I, f['ty'], p)
                cl = emitter.CLASSES.get((short, v['name'], f['name'])) or ('bystr' if short == 'NodeByteStr' else None)
                if cl:
                    ch = [(n, [cl] * n, b) for n, c, b in ch]
            parts = [ps + [x] for ps in parts for x in ch]

        def build(ts, ps, vi=vi):
            fs, i = [], 0
            for n, c, b in ps:
                fs.append(b(ts[i:i + n]))
                i += n
            return ('adt', ty, vi, tuple(fs))
        for ps in parts:
            out.append((sum(x[0] for x in ps), [c for x in ps for c in x[1]], lambda ts, ps=ps, build=build: build(ts, ps)))
    return out


def known(m, job, texts):
    """Display of the nodes whose texts are known"""
    n, ty = job
    I = Interp(m)
    where = 'Display of ' + ty.replace(A, '')
    res = []
    for num, cls, build in nodes(I, ty):
        if num > 2:
            raise Anchor('node with more than two texts: ' + ty)
        if num == 0:
            choices = [()]
        elif num == 1:
            choices = [(t,) for t in texts[cls[0]]]
        else:
            a, b = texts[cls[0]], texts[cls[1]]
            choices = [(t, b[0]) for t in a] + [(a[0], t) for t in b] + [(t, t) for t in a if t in b] + [(a[i % len(a)], t) for i, t in enumerate(b)]
        for ts in choices:
            I.steps = 0
            root = ('T', 0, 'fmtr')
            node = build(ts)
            w = emitter.text_of(I, node, {})
            want = lit_of(('s', w[0][1])) if len(w) == 1 else None
            if want is None:
                raise Anchor('text of ' + ty)
            try:
                outs = I.exec_fn(St({root: ('fmtr', lit(''))}), n, [('ref', ('V', node), ()), ('ref', root, ())], 0, 0)
            except Budget as e:
                res.append(('unknown', where, str(e)))
                continue
            for o in outs:
                t = o[1].mem.get(root, top('text')) if o[0] == 'ret' else None
                t = t[1] if t and t[0] == 'fmtr' else t
                got = lit_of(t) if t and t[0] == 's' else None
                if o[0] == 'panic' and not o[1].und:
                    res.append(('bad', where, 'panics for "%s": %s' % (want, panic_text(o[2]))))
                elif o[0] != 'ret' or o[1].und or got is None:
                    res.append(('unknown', where, 'the text printed for "%s"' % want))
                elif got != want:
                    res.append(('bad', where, 'prints as "%s", not as written: "%s"' % (got, want)))
                else:
                    res.append(('ok', where, None))
    return res


def describe(I, facts):
    """variants chosen on the path, outermost first"""
    out = []
    for k, v in facts.items():
        if k[0] == 'var' and len(v) == 1:
            out.append((len(k[1]), '%d' % list(v)[0], k[1]))
    out.sort(key=lambda x: (x[0], repr(x[2])))
    res = []
    for _, i, p in out:
        t = typeof(I, p)
        if t:
            vs = I.ty(t).get('variants')
            if vs and len(vs) > 1:
                res.append(vs[int(i)]['name'])
    return ' '.join(res)


ROOT = {}


def typeof(I, path):
    t = ROOT.get('ty')
    if t is None:
        return None
    for f in path[1:]:
        k = I.ty(t)
        while k.get('box') or k['k'] == 'ref':
            t = k.get('inner') or k['args'][0]
            k = I.ty(t)
        if f[0] != 'f':
            continue
        try:
            t = k['variants'][f[1]]['fields'][f[2]]['ty']
        except (KeyError, IndexError, TypeError):
            return None
    k = I.ty(t)
    while k.get('box'):
        t = k['args'][0]
        k = I.ty(t)
    return t


def check_names(m, prods, ck):
    jobs = []
    for s in NAMES:
        n = FMT % (A + s)
        if n not in m['funcs']:
            raise Anchor('no Display for ' + s)
        jobs.append((n, A + s))
    wraps = 0
    for n in sorted(m['funcs']):
        pre, post = '<' + WMD + '<', '> as core::fmt::Display>::fmt'
        if n.startswith(pre) and n.endswith(post):
            ty = n[1:-len(' as core::fmt::Display>::fmt')]
            arg = n[len(pre):-len(post)]
            if arg == 'alloc::string::String' or arg.replace(A, '') in NAMES:
                jobs.append((n, ty))
                wraps += 1
    if not wraps:
        raise Anchor('no Display for WithMetaData')
    ana, unm = set(), set()
    import scenes
    texts = from_code(*scenes.strings(m))
    for j in jobs:
        ROOT['ty'] = j[1]
        res, a, u = one(m, j)
        res += known(m, j, texts)
        ana |= set(a)
        unm |= set(u)
        for kind, where, what in res:
            if kind == 'ok':
                ck.ok()
                if what:
                    ck.sample('%s: %s' % (where, what))
            elif kind == 'bad':
                ck.bad(where, what)
            else:
                ck.unknown(where, what)
    ck.cov['functions_analysed'] = sorted(x for x in ana if 'crate' in x)
    ck.cov['unmodelled_calls'] = sorted(unm)
    ck.cov['printed_types'] = len(jobs)


if __name__ == '__main__':
    import build, time
    m, p, key = build.load()
    ck = common.Check('C18', 'x')
    t = time.time()
    check_names(m, p, ck)
    print(ck.obl, ck.disch, len(ck.undet), ck.undet[:8], len(ck.viol), ck.viol[:8], time.time() - t)
    print(ck.cov, ck.samples)
