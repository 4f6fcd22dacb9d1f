"""C17: constructors, list wrappers, equality and copies of the public data types.

Derived implementations are taken from the compiler's own flag; hand-written ones are interpreted on arbitrary
values: `eq` may answer true only if every part was found equal and false only if some part was found to
differ; `clone` must give back every part."""
import common
from interp import *
from emitter import Anchor, has_top, field_index

A = 'crate::ast::nodes::'
NEED_EQ = ['crate::contract::Contract', 'crate::field::Field', 'crate::field::FieldList', 'crate::transition::Transition', 'crate::transition::TransitionList',
           'crate::r#type::Type', 'crate::parser::lexer::Token', 'crate::parser::lexer::SourcePosition', A + 'WithMetaData', A + 'NodeProgram']
NEED_CLONE = ['crate::field::Field', 'crate::field::FieldList', 'crate::r#type::Type', A + 'WithMetaData', A + 'NodeProgram', 'crate::parser::lexer::Token']
SKIP = ('crate::simplified_representation::', 'crate::parser::parser::')


def local(m):
    return [a for a in m['adts'] if a['pub'] and not a['path'].startswith(SKIP)]


def impl(a, tr):
    """True derived, False hand-written, None absent"""
    r = [d for t, d in a['impls'] if t == tr]
    return None if not r else all(r)


def instances(m, path, trait, method):
    return [n for n, f in m['funcs'].items() if f.get('local') and f.get('method') == method and f.get('trait') == trait
            and strip_generics(f.get('self_ty') or '').split('<')[0] == path and f.get('body') and not f.get('derived')]


# ------------------------------------------------------------------ interpretation with opaque std functions
def interp(m, budget=60000):
    I = Interp(m, budget=budget)

    def opaque(I, st, c, path, args, term):
        if path.startswith('crate'):
            return None
        key = ('opq', path.rsplit('::', 1)[1], tuple(I.strip(st, a) for a in args))
        s = st.copy()
        for a, t in zip(args, term[5]):
            if t.startswith('&mut ') and a[0] == 'ref' and a[1][0] != 'V':
                I.write(s, a[1], a[2], I.sym(key + ('after',), t[5:]))
        return [('ret', s, I.sym(key, term[6]))]

    def textop(I, st, c, args, site):
        p = strip_generics(c['path'])
        if I.term is not None and p.startswith(('core::str::', 'alloc::str::')) and p.rsplit('::', 1)[1] in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'eq_ignore_ascii_case', 'replace', 'trim_matches'):
            return opaque(I, st, c, p, args, I.term)
        return None
    I.opaque = opaque
    I.hooks.append(textop)
    return I


def value(I, side, ty, vi, lens):
    fs = I.ty(ty)['variants'][vi]['fields']
    out = []
    for i, f in enumerate(fs):
        k = I.ty(f['ty'])
        if k.get('path') == 'alloc::vec::Vec':
            n = lens.get(i, 1)
            out.append(('vec', tuple(('el', I.sym((side, ('f', vi, i), ('n', j)), k['args'][0])) for j in range(n))))
        else:
            out.append(I.sym((side, ('f', vi, i)), f['ty']))
    return ('adt', ty, vi, tuple(out))


def same(I, facts, a, b):
    """are the facts enough for a == b"""
    while a[0] in ('box',) or a[0] == 'ref' and a[1][0] == 'V':
        a = a[1] if a[0] == 'box' else a[1][1]
    while b[0] in ('box',) or b[0] == 'ref' and b[1][0] == 'V':
        b = b[1] if b[0] == 'box' else b[1][1]
    if a == b:
        return True
    if a[0] == 's' and b[0] == 's':
        key = ('streq2',) + tuple(sorted((a[1], b[1]), key=repr))
        if facts.get(key) is True:
            return True
        x, y = facts.get(('seq', a[1])), facts.get(('seq', b[1]))
        return x is not None and x == y
    if a[0] == 'vec' and b[0] == 'vec':
        if facts.get(('eq2',) + tuple(sorted((a, b), key=repr))) is True:
            return True
        return len(a[1]) == len(b[1]) and all(s[0] == 'el' and t[0] == 'el' and same(I, facts, s[1], t[1]) for s, t in zip(a[1], b[1]))
    if a[0] == 'tup' and b[0] == 'tup':
        return all(same(I, facts, x, y) for x, y in zip(a[1], b[1]))
    if a[0] == 'adt' and b[0] == 'adt':
        return a[2] == b[2] and len(a[3]) == len(b[3]) and all(same(I, facts, x, y) for x, y in zip(a[3], b[3]))
    if a[0] == 'sym' and b[0] == 'sym':
        if facts.get(('eq2',) + tuple(sorted((a, b), key=repr))) is True:
            return True
        for x, y in ((a, b), (b, a)):
            if facts.get(('cmp', 'Eq', x, y)) is True or facts.get(('cmp', 'Ne', x, y)) is False:
                return True
        k = I.ty(a[2])
        if k['k'] == 'bool':
            x, y = facts.get(('is', a[1])), facts.get(('is', b[1]))
            return x is not None and x == y
        if k['k'] == 'adt' and k.get('variants'):
            va = facts.get(('var', a[1]), frozenset(range(len(k['variants']))))
            vb = facts.get(('var', b[1]), frozenset(range(len(k['variants']))))
            if len(va) == 1 and va == vb:
                vi = next(iter(va))
                x, y = I.expand(a, vi), I.expand(b, vi)
                return bool(x and y) and same(I, facts, x, y)
    return False


def differ(I, facts, a, b):
    """do the facts contain a difference"""
    for c, v in facts.items():
        if c[0] in ('eq2', 'streq2') and v is False or c[0] == 'cmp' and (c[1] == 'Eq' and v is False or c[1] == 'Ne' and v is True):
            return True
        if c[0] == 'cmp' and c[1] in ('Lt', 'Gt') and v is True:
            return True
        if c[0] == 'var' and c[1][:1] == ('a',):
            o = facts.get(('var', ('b',) + c[1][1:]))
            if o is not None and not (o & v):
                return True
        if c[0] == 'is' and c[1][:1] == ('a',):
            o = facts.get(('is', ('b',) + c[1][1:]))
            if o is not None and o != v:
                return True
        if c[0] in ('sne', 'seq', 'empty', 'eqi', 'nval', 'val') or "'opq'" in repr(c):
            return True         # some distinction was made
    return False


def lens_of(I, ty, va, vb):
    """list lengths to compare: all of length one, and each list of differing or greater length"""
    out = [({}, {})]
    for vi in {va, vb}:
        for i, f in enumerate(I.ty(ty)['variants'][vi]['fields']):
            if I.ty(f['ty']).get('path') == 'alloc::vec::Vec':
                out += [({i: x}, {i: y}) for x, y in ((0, 1), (1, 0), (2, 2), (1, 2), (2, 1), (0, 0))]
    return out


def check_eq(m, ck, a, name):
    I0 = interp(m)
    ty = m['funcs'][name]['self_ty']
    where = '<%s as PartialEq>::eq' % ty.replace('crate::', '')
    vs = I0.ty(ty)['variants']
    for va in range(len(vs)):
        for vb in range(len(vs)):
            for la, lb in lens_of(I0, ty, va, vb):
                I = interp(m)
                base = I.eq

                def eq2(st, x, y, depth=0, I=I, base=base):
                    p, q = I.strip(st, x), I.strip(st, y)
                    if p != q and p[0] == 'vec' and q[0] == 'vec' and any(s[0] != 'el' for s in p[1] + q[1]) and p[1] and q[1]:
                        return I.assume(st, ('eq2',) + tuple(sorted((p, q), key=repr)))
                    return base(st, x, y, depth)
                I.eq = eq2
                x, y = value(I, 'a', ty, va, la), value(I, 'b', ty, vb, lb)
                try:
                    outs = I.exec_fn(St({}), name, [('ref', ('V', x), ()), ('ref', ('V', y), ())], 0, 0)
                except Budget as e:
                    ck.unknown(where, str(e))
                    continue
                for o in outs:
                    if o[0] != 'ret' or o[1].und:
                        ck.unknown(where, str(o[2])[:100] if o[0] != 'ret' else o[1].und[0])
                        continue
                    cases = [(o[1], o[2][1])] if o[2][0] == 'b' else I.branch(o[1], o[2]) if o[2][0] in ('c', 'cn', 'sym') else None
                    if cases is None:
                        ck.unknown(where, 'result not known')
                        continue
                    desc = vs[va]['name'] if len(vs) > 1 else 'two values'
                    for s, r in cases:
                        if s.und:
                            ck.unknown(where, s.und[0])
                        elif r and not same(I, s.facts, x, y):
                            what = '%s and %s' % (vs[va]['name'], vs[vb]['name']) if va != vb else next(
                                ('values of %s that differ in %s' % (vs[va]['name'] if len(vs) > 1 else ty.rsplit('::', 1)[-1], f['name']) for f, p, q in zip(vs[va]['fields'], x[3], y[3]) if not same(I, s.facts, p, q)), desc)
                            ck.bad(where, '%s are equal' % what)
                        elif not r and va == vb and not differ(I, s.facts, x, y) and not any(la.get(i, 1) != lb.get(i, 1) for i in set(la) | set(lb)):
                            ck.bad(where, 'equal values of %s are not equal' % (vs[va]['name']))
                        else:
                            ck.ok()


def check_clone(m, ck, a, name):
    I0 = interp(m)
    ty = m['funcs'][name]['self_ty']
    where = '<%s as Clone>::clone' % ty.replace('crate::', '')
    vs = I0.ty(ty)['variants']
    for vi in range(len(vs)):
        I = interp(m)
        x = ('adt', ty, vi, tuple(I.sym(('a', ('f', vi, i)), f['ty']) for i, f in enumerate(vs[vi]['fields'])))
        compare(I, ck, where, name, [('ref', ('V', x), ())], x, 'the copy')


def compare(I, ck, where, fn, args, want, what, mem=None, pick=None):
    try:
        outs = I.exec_fn(St(dict(mem or {})), fn, args, 0, 0)
    except Budget as e:
        return ck.unknown(where, str(e))
    for o in outs:
        if o[0] != 'ret' or o[1].und:
            ck.unknown(where, str(o[2])[:100] if o[0] != 'ret' else o[1].und[0])
            continue
        got = deep(I, o[1], pick(o) if pick else o[2])
        if same(I, o[1].facts, got, want):
            ck.ok()
        elif has_top(got):
            ck.unknown(where, 'result not known')
        else:
            ck.bad(where, '%s %s' % (what, why(I, o[1].facts, got, want)))


def why(I, facts, g, w):
    if g[0] == 'adt' and w[0] == 'adt' and g[2] == w[2]:
        fs = I.ty(w[1])['variants'][w[2]]['fields']
        for f, x, y in zip(fs, g[3], w[3]):
            if not same(I, facts, x, y):
                return 'does not keep %s: it is %s' % (f['name'], show(x))
    return 'is %s' % show(g)


def show(v):
    if v[0] == 's':
        return ' + '.join(repr(p[1]) if p[0] == 'lit' else 'the given text' if p[0] == 'sp' and p[1][:1] != ('opq',) else 'what %s makes of it' % p[1][1] if p[0] == 'sp' else p[0] for p in v[1]) or "''"
    if v[0] == 'sym':
        return 'what %s makes of it' % v[1][1] if v[1][:1] == ('opq',) else 'another part'
    if v[0] == 'vec':
        return 'a list of %s' % ', '.join('the given list' if s[0] == 'all' else show(s[1]) if s[0] == 'el' else s[0] for s in v[1]) if v[1] else 'an empty list'
    return str(v[0]) if v[0] != 'adt' else v[1].rsplit('::', 1)[-1]


def deep(I, st, v, n=0):
    if n > 8:
        return v
    if v[0] == 'ref':
        v = I.strip(st, v)
    if v[0] == 'adt':
        return v[:3] + (tuple(deep(I, st, x, n + 1) for x in v[3]),)
    if v[0] == 'box':
        return ('box', deep(I, st, v[1], n + 1))
    if v[0] == 'vec':
        return ('vec', tuple(('el', deep(I, st, s[1], n + 1)) if s[0] == 'el' else s for s in v[1]))
    if v[0] == 'tup':
        return ('tup', tuple(deep(I, st, x, n + 1) for x in v[1]))
    return v


# ------------------------------------------------------------------ constructors and lists
def struct(I, ty, **fs):
    k = I.ty(ty)
    if not k.get('variants'):
        raise Anchor('%s is missing' % ty)
    names = [f['name'] for f in k['variants'][0]['fields']]
    if sorted(names) != sorted(fs):
        raise Anchor('%s has fields %s' % (ty, names))
    return ('adt', ty, 0, tuple(fs[n] for n in names))


def constructors(m, ck):
    FIELD, FL = 'crate::field::Field', 'crate::field::FieldList'
    TR, TL, TY = 'crate::transition::Transition', 'crate::transition::TransitionList', 'crate::r#type::Type'
    CON = 'crate::contract::Contract'
    name = ('s', (('sp', ('name',)),))
    EMPTY = ('vec', ())

    def fn(n):
        if n not in m['funcs'] or not m['funcs'][n].get('body'):
            raise Anchor('function %s is missing' % n)
        return n
    I = interp(m)
    ty = I.sym(('type',), TY)
    fl = ('adt', FL, 0, (('vec', (('all', ('list',), FIELD, ()),)),))
    tl = ('adt', TL, 0, (('vec', (('all', ('list',), TR, ()),)),))
    compare(interp(m), ck, 'Field::new', fn('crate::field::Field::new'), [name, ty], struct(I, FIELD, name=name, type=ty), 'the field')
    for n, where, args, params in (('new', 'Transition::new', [name, fl], fl), ('new_without_param', 'Transition::new_without_param', [name], ('adt', FL, 0, (EMPTY,)))):
        compare(interp(m), ck, where, fn('crate::transition::Transition::' + n), args, struct(I, TR, name=name, params=params), 'the transition')
    # adding to lists
    for lty, ety, ln in ((FL, FIELD, 'FieldList'), (TL, TR, 'TransitionList')):
        n = lty + '::push'
        x = I.sym(('x',), ety)
        if n not in m['funcs']:
            if lty == FL:
                fn(n)
            continue
        for segs, d in (((('all', ('list',), ety, ()),), 'any list'), ((), 'an empty list'), ((('el', x),), 'a list that has an equal element')):
            root = ('T', 0, 'list')
            compare(interp(m), ck, ln + '::push', n, [('ref', root, ()), x], ('adt', lty, 0, (('vec', segs + (('el', x),)),)), 'after adding to %s the list' % d,
                    {root: ('adt', lty, 0, (('vec', segs),))}, lambda o: o[1].mem.get(root, top('list')))
    # access to lists
    for lty, ety, ln in ((FL, FIELD, 'FieldList'), (TL, TR, 'TransitionList')):
        for tr, me in (('Deref', 'deref'), ('DerefMut', 'deref_mut')):
            n = '<%s as core::ops::deref::%s>::%s' % (lty, tr, me)
            if n not in m['funcs']:
                if tr == 'Deref':
                    fn(n)
                continue
            v = ('vec', (('all', ('list',), ety, ()),))
            root = ('T', 0, 'list')
            compare(interp(m), ck, '%s::%s' % (ln, me), n, [('ref', root, ())], v, 'what it gives access to', {root: ('adt', lty, 0, (v,))})
            # it is the list itself
            I2 = interp(m)
            for o in I2.exec_fn(St({root: ('adt', lty, 0, (v,))}), n, [('ref', root, ())], 0, 0):
                if o[0] == 'ret' and not o[1].und:
                    if o[2][0] == 'ref' and o[2][1] == root:
                        ck.ok()
                    elif has_top(o[2]):
                        ck.unknown(ln, 'reference not known')
                    elif o[2][0] == 'ref' and tr == 'DerefMut':
                        ck.bad('%s::%s' % (ln, me), 'gives access to a copy of the list')
    # defaults
    S0 = ('s', ())
    defs = [(FL, ('adt', FL, 0, (EMPTY,))), (TL, ('adt', TL, 0, (EMPTY,))),
            (CON, struct(I, CON, name=S0, init_params=('adt', FL, 0, (EMPTY,)), fields=('adt', FL, 0, (EMPTY,)), transitions=('adt', TL, 0, (EMPTY,))))]
    for t, want in defs:
        n = '<%s as core::default::Default>::default' % t
        if n in m['funcs']:
            compare(interp(m), ck, t.rsplit('::', 1)[1] + '::default', n, [], want, 'the default')


def check(m, prods, ck):
    byp = {a['path']: a for a in m['adts']}
    for need, tr in ((NEED_EQ, 'core::cmp::PartialEq'), (NEED_CLONE, 'core::clone::Clone')):
        for p in need:
            if p not in byp:
                raise Anchor('type %s is missing' % p)
            if impl(byp[p], tr) is None:
                raise Anchor('%s is not %s' % (p, tr))
    hand = []
    nd = 0
    for a in local(m):
        for tr, me, fnc in (('core::cmp::PartialEq', 'eq', check_eq), ('core::clone::Clone', 'clone', check_clone)):
            d = impl(a, tr)
            if d is None:
                continue
            if d:
                nd += 1
                ck.ok()
                continue
            ins = instances(m, a['path'], tr, me)
            hand.append('%s: %s' % (a['path'], tr))
            if not ins:
                ck.unknown(a['path'], 'no instance of the hand-written ' + tr)
            for n in ins[:4]:
                fnc(m, ck, a, n)
    constructors(m, ck)
    ck.cov['derived_impls'] = nd
    ck.cov['hand_written_impls'] = hand
    if nd + len(hand) < 80:
        raise Anchor('only %d implementations found' % (nd + len(hand)))
    ck.sample('%d derived implementations of PartialEq and Clone, %d hand-written' % (nd, len(hand)))
    for x in ('Field::new', 'Transition::new', 'Transition::new_without_param', 'FieldList::push', 'Deref of the lists', 'defaults'):
        ck.sample(x)


if __name__ == '__main__':
    import build, time
    m, p, key = build.load()
    ck = common.Check('C17', 'x')
    t = time.time()
    check(m, p, ck)
    print(ck.obl, ck.disch, len(ck.undet), ck.undet[:5], len(ck.viol), ck.viol[:8], time.time() - t)
    print(ck.cov)
