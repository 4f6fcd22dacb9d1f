"""Transfer functions for std / core / alloc functions (bodies not interpreted)."""
from interp import *
import strings
import interp as I

MODELS = {}
PANICS = {
    'core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_display', 'core::panicking::panic_explicit',
    'core::panicking::unreachable_display', 'core::panicking::panic_nounwind', 'core::panicking::assert_failed',
    'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'std::process::exit', 'std::process::abort',
    'std::panicking::begin_panic', 'core::panicking::panic_str_2015', 'core::panicking::panic_bounds_check',
}
PANIC_PREFIXES = ('core::panicking::', 'std::rt::begin_panic', 'std::rt::panic', 'core::slice::index::slice_', 'core::str::slice_error_fail', 'core::result::unwrap_failed', 'core::option::unwrap_failed', 'core::option::expect_failed')


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ret(st, v):
    return [('ret', st, v)]


def some(ty, v):
    return ('adt', ty, 1, (v,))


def opt(v):
    return ('adt', OPT, 0, ()) if v is None else ('adt', OPT, 1, (v,))


OPT = 'core::option::Option<_>'
RES = 'core::result::Result<_, _>'


def ok(v):
    return ('adt', RES, 0, (v,))


def err(v):
    return ('adt', RES, 1, (v,))


def retty(I, st, c):
    return None


# ------------------------------------------------------------------ identity-like
@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def deref(I, st, args, c, site, k):
    a = args[0]
    v = I.deref1(st, a)
    if v[0] == 's':
        return ret(st, v)
    if v[0] in ('vec', 'top'):
        return ret(st, a)
    if v[0] == 'box':
        return ret(st, ('ref', a[1], a[2] + (('d',),)) if a[1][0] != 'V' else ('ref', ('V', v[1]), ()))
    if v[0] == 'ref':
        return ret(st, v)
    f = I.funcs.get(c['name'])
    if f and f.get('body'):
        return NotImplemented
    return ret(st, a)


@model('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'alloc::borrow::Borrow::borrow', 'alloc::string::String::as_str', 'alloc::vec::Vec::as_slice',
       'core::str::as_ref', 'alloc::vec::Vec::as_mut_slice', 'alloc::boxed::Box::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut')
def as_ref(I, st, args, c, site, k):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and f.get('body'):
        return NotImplemented
    return deref(I, st, args, c, site, k)


@model('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::iter::traits::iterator::Iterator::by_ref', 'alloc::string::ToOwned::to_owned')
def clone(I, st, args, c, site, k):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and not f.get('derived') and f.get('body'):
        return NotImplemented
    if c['decl'].endswith('by_ref'):
        return ret(st, args[0])
    t = (c.get('dargs') or [''])[0]
    v = args[0]
    if I.ty(t)['k'] == 'ref':
        return ret(st, I.deref1(st, v))
    return ret(st, I.deref1(st, v))


@model('alloc::slice::to_vec', 'alloc::slice::into_vec', 'alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::vec::Vec::into_boxed_slice')
def to_vec(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    if v[0] == 'mu':
        v = v[1]
    return ret(st, v if v[0] in ('vec', 'top') else top('to_vec'))


@model('alloc::boxed::Box::new', 'alloc::boxed::Box::pin')
def box_new(I, st, args, c, site, k):
    return ret(st, ('box', args[0]))


@model('alloc::boxed::Box::new_uninit', 'alloc::boxed::Box::new_uninit_in')
def box_uninit(I, st, args, c, site, k):
    return ret(st, ('box', ('mu', ('uninit',))))


@model('alloc::boxed::Box::into_inner', 'core::mem::ManuallyDrop::into_inner', 'core::hint::must_use', 'core::hint::black_box', 'core::convert::identity',
       'alloc::boxed::Box::assume_init', 'core::mem::maybe_uninit::MaybeUninit::assume_init')
def ident(I, st, args, c, site, k):
    v = args[0]
    if 'into_inner' in c['path'] and v[0] == 'box':
        v = v[1]
    return ret(st, v)


@model('core::mem::drop', 'core::mem::forget')
def mdrop(I, st, args, c, site, k):
    return ret(st, UNIT)


@model('core::mem::take')
def mtake(I, st, args, c, site, k):
    a = args[0]
    if a[0] != 'ref' or a[1][0] == 'V':
        return NotImplemented
    v = I.read(st, a[1], a[2])
    t = (c.get('targs') or [''])[0]
    d = default_of(I, t)
    if d is None:
        return ret(st.doubt('mem::take of ' + t), v)
    s = st.copy()
    I.write(s, a[1], a[2], d)
    return ret(s, v)


@model('core::mem::replace')
def mreplace(I, st, args, c, site, k):
    a = args[0]
    if a[0] != 'ref' or a[1][0] == 'V':
        return NotImplemented
    v = I.read(st, a[1], a[2])
    s = st.copy()
    I.write(s, a[1], a[2], args[1])
    return ret(s, v)


@model('core::mem::swap')
def mswap(I, st, args, c, site, k):
    a, b = args
    if a[0] != 'ref' or b[0] != 'ref' or a[1][0] == 'V' or b[1][0] == 'V':
        return NotImplemented
    va, vb = I.read(st, a[1], a[2]), I.read(st, b[1], b[2])
    s = st.copy()
    I.write(s, a[1], a[2], vb)
    I.write(s, b[1], b[2], va)
    return ret(s, UNIT)


def default_of(I, t):
    k = I.ty(t)
    if I.is_string(t):
        return lit('')
    if k['k'] == 'adt':
        if k['path'] == 'alloc::vec::Vec':
            return ('vec', ())
        if k['path'] == 'core::option::Option':
            return ('adt', t, 0, ())
    if k['k'] == 'int':
        return ('i', 0)
    if k['k'] == 'bool':
        return ('b', False)
    if k['k'] == 'tuple' and not k['args']:
        return UNIT
    return None


@model('core::default::Default::default')
def default(I, st, args, c, site, k):
    t = (c.get('dargs') or [''])[0]
    d = default_of(I, t)
    if d is not None:
        return ret(st, d)
    return NotImplemented


# ------------------------------------------------------------------ Option / Result odds and ends
@model('core::option::Option::is_some', 'core::option::Option::is_none')
def is_some(I, st, args, c, site, k):
    want = c['path'].endswith('is_some')
    return [('ret', s, ('b', sm == want)) for s, sm, p in I.opt_cases(st, args[0])]


@model('core::result::Result::is_ok', 'core::result::Result::is_err')
def is_ok(I, st, args, c, site, k):
    want = c['path'].endswith('is_ok')
    return [('ret', s, ('b', sm == want)) for s, sm, p in I.res_cases(st, args[0])]


@model('core::ops::try_trait::Try::branch')
def try_branch(I, st, args, c, site, k):
    t = (c.get('dargs') or [''])[0]
    p = I.ty(t).get('path')
    v = args[0]
    if p == 'core::result::Result':
        return [('ret', s, ('adt', 'core::ops::ControlFlow', 0, (x,)) if okk else ('adt', 'core::ops::ControlFlow', 1, (err(x),))) for s, okk, x in I.res_cases(st, v)]
    if p == 'core::option::Option':
        return [('ret', s, ('adt', 'core::ops::ControlFlow', 0, (x,)) if sm else ('adt', 'core::ops::ControlFlow', 1, (opt(None),))) for s, sm, x in I.opt_cases(st, v)]
    return NotImplemented


@model('core::ops::try_trait::FromResidual::from_residual')
def from_residual(I, st, args, c, site, k):
    t = (c.get('dargs') or [''])[0]
    p = I.ty(t).get('path')
    if p == 'core::option::Option':
        return ret(st, opt(None))
    if p == 'core::result::Result':
        v = args[0]
        e = v[3][0] if v[0] == 'adt' and v[3] else top('residual')
        et = I.ty(t)['args'][1]
        src = (c.get('dargs') or ['', ''])[1]
        st_e = (I.ty(src).get('args') or ['', et])[-1]
        if st_e == et:
            return ret(st, err(e))
        return [('ret', o[1], err(o[2])) if o[0] == 'ret' else o for o in convert(I, st, e, st_e, et, site)]
    return NotImplemented


def convert(I, st, v, src, dst, site):
    """<dst as From<src>>::from(v)"""
    if src == dst:
        return ret(st, v)
    n = '<%s as core::convert::From<%s>>::from' % (dst, src)
    if n in I.funcs and I.funcs[n].get('body'):
        return I.exec_fn(st, n, [v], site[0], site[1])
    # From implementations of generic source types
    for fn in I.funcs:
        if fn.startswith('<%s as core::convert::From<' % dst) and I.funcs[fn].get('body') and I.funcs[fn].get('local'):
            if I.funcs[fn]['body']['locals'][1] == src:
                return I.exec_fn(st, fn, [v], site[0], site[1])
    return from_(I, st, [v], {'name': n, 'path': n, 'decl': 'core::convert::From::from', 'dargs': [dst, src], 'targs': []}, site, None) or ret(st.doubt('conversion'), top('conversion'))


@model('core::convert::From::from')
def from_(I, st, args, c, site, k):
    d = c.get('dargs') or ['', '']
    dst, src = d[0], d[1] if len(d) > 1 else ''
    if dst == src:
        return ret(st, args[0])
    if I.is_string(dst):
        v = I.strip(st, args[0])
        if v[0] == 's':
            return ret(st, v)
        if v[0] == 'ch':
            return ret(st, lit(v[1]))
        f = I.funcs.get(c['name'])
        if f and f.get('body') and f.get('local'):
            return NotImplemented
        return ret(st.doubt('String::from'), top('String::from'))
    if I.is_box(dst):
        if I.ty(dst)['args'][0] == src:
            return ret(st, ('box', args[0]))
        return ret(st, ('box', args[0]))
    k2 = I.ty(dst)
    if k2['k'] == 'int' and I.ty(src)['k'] in ('int', 'bool', 'char'):
        return ret(st, I.strip(st, args[0]))
    if k2.get('path') == 'core::option::Option' and k2['args'][0] == src:
        return ret(st, opt(args[0]))
    if k2.get('path') == 'alloc::vec::Vec':
        v = I.strip(st, args[0])
        return ret(st, v)
    return NotImplemented


@model('core::convert::Into::into')
def into(I, st, args, c, site, k):
    d = c.get('dargs') or []
    if len(d) == 2:
        n = '<%s as core::convert::From<%s>>::from' % (d[1], d[0])
        return I.call(st, {'name': n, 'path': n, 'decl': 'core::convert::From::from', 'kind': 'item', 'dargs': [d[1], d[0]], 'targs': []}, args, site)
    return NotImplemented


# ------------------------------------------------------------------ comparison
@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne', 'core::cmp::impls::eq', 'core::str::traits::eq', 'alloc::vec::partial_eq::eq', 'core::str::eq_ignore_ascii_case_')
def eq(I, st, args, c, site, k):
    name = c['name']
    ne = c['decl'].endswith('::ne')
    t = (c.get('dargs') or [''])[0]
    n = name
    if ne:
        n = name.rsplit('::', 1)[0] + '::eq'
    while I.ty(t)['k'] == 'ref':
        t = I.ty(t)['inner']
        n = '<%s as core::cmp::PartialEq>::eq' % t
    f = I.funcs.get(n)
    if f and f.get('local') and not f.get('derived') and f.get('body'):
        args2 = list(args)
        while args2[0][0] == 'ref' and I.deref1(st, args2[0])[0] == 'ref':
            args2 = [I.deref1(st, a) for a in args2]
        outs = I.exec_fn(st, n, args2, site[0], site[1])
        return [('ret', o[1], I.neg(o[2])) if o[0] == 'ret' and ne else o for o in outs]
    return [('ret', s, ('b', b != ne)) for s, b in I.eq(st, args[0], args[1])]


# ------------------------------------------------------------------ Vec
def vec_place(I, st, a):
    """place of the vector behind reference a"""
    if a[0] != 'ref':
        return None
    v = I.read(st, a[1], a[2])
    while v[0] == 'ref':
        a = v
        v = I.read(st, a[1], a[2])
    if v[0] == 'box':
        return a[1], a[2] + (('d',),), v[1]
    return a[1], a[2], v


@model('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::vec::Vec::new_in')
def vec_new(I, st, args, c, site, k):
    return ret(st, ('vec', ()))


def setv(I, st, p, v):
    s = st.copy()
    I.write(s, p[0], p[1], v)
    return s


@model('alloc::vec::Vec::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def vec_push(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if p is None or p[2][0] != 'vec':
        return ret(st.doubt('push on unknown'), UNIT)
    return ret(setv(I, st, p, ('vec', p[2][1] + (('el', args[1]),))), UNIT)


@model('alloc::vec::Vec::pop', 'alloc::collections::vec_deque::VecDeque::pop_back')
def vec_pop(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if p is None or p[2][0] != 'vec':
        return ret(st.doubt('pop on unknown'), top('pop'))
    segs = p[2][1]
    if not segs:
        return ret(st, opt(None))
    if segs[-1][0] == 'el':
        return ret(setv(I, st, p, ('vec', segs[:-1])), opt(segs[-1][1]))
    if segs[-1][0] == 'base':
        # below the analysed activation's own pushes
        return ret(st.doubt('pop below base'), top('popped from base'))
    # a symbolic sequence: empty or its last element
    outs = []
    last = segs[-1]
    for s, e in I.branch(st, I.seq_empty(st, ('vec', (last,)))):
        if e:
            s2 = setv(I, s, p, ('vec', segs[:-1]))
            outs += vec_pop(I, s2, args, c, site, k)
        elif last[0] == 'all' and all(m[0] in ('dropback', 'dropfront') for m in last[3]):
            n = sum(m[1] for m in last[3] if m[0] == 'dropback')
            el = I.sym(last[1] + (('n', -1 - n),), last[2])
            mods = tuple(m for m in last[3] if m[0] != 'dropback') + (('dropback', n + 1),)
            # emptiness of what is left is a new question: length facts
            outs += pop_exact(I, s, p, last, el, mods)
        else:
            outs.append(('ret', s.doubt('pop of symbolic'), opt(top('popped'))))
    return outs


def pop_exact(I, st, p, last, el, mods):
    segs = p[2][1]
    return ret(setv(I, st, p, ('vec', segs[:-1] + (('all', last[1], last[2], mods),))), opt(el))


@model('alloc::vec::Vec::len', 'core::slice::len', 'core::iter::traits::exact_size::ExactSizeIterator::len')
def vec_len(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    if v[0] == 'it':
        if v[1] == 'list':
            return ret(st, I.length(st, ('vec', v[2])))
        return ret(st.doubt('len'), top('len'))
    return ret(st, I.length(st, v))


@model('alloc::vec::Vec::is_empty', 'core::slice::is_empty', 'core::str::is_empty', 'alloc::string::String::is_empty')
def vec_is_empty(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    return ret(st, I.seq_empty(st, v))


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def vec_clear(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if p is None:
        return NotImplemented
    return ret(setv(I, st, p, ('vec', ()) if p[2][0] == 'vec' else lit('')), UNIT)


@model('alloc::vec::Vec::insert')
def vec_insert(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if p is None or p[2][0] != 'vec' or args[1][0] not in ('i', 'len'):
        return ret(st.doubt('insert'), UNIT)
    segs = p[2][1]
    if args[1][0] == 'len':
        if args[1][1] == segs:
            return ret(setv(I, st, p, ('vec', segs + (('el', args[2]),))), UNIT)
        return ret(st.doubt('insert'), UNIT)
    n = args[1][1]
    if all(s[0] == 'el' for s in segs[:n]) and n <= len(segs):
        return ret(setv(I, st, p, ('vec', segs[:n] + (('el', args[2]),) + segs[n:])), UNIT)
    return ret(st.doubt('insert'), UNIT)


@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def vec_remove(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    swap = 'swap_remove' in c['path']
    if p is None or p[2][0] != 'vec' or args[1][0] != 'i':
        return ret(st.doubt('remove'), top('removed'))
    segs, n = p[2][1], args[1][1]
    if all(s[0] == 'el' for s in segs[:n + 1]) and n < len(segs):
        v = segs[n][1]
        if swap:
            if not all(s[0] == 'el' for s in segs):
                return ret(st.doubt('swap_remove'), v)
            rest = segs[:n] + segs[-1:] + segs[n + 1:-1] if n < len(segs) - 1 else segs[:n]
        else:
            rest = segs[:n] + segs[n + 1:]
        return ret(setv(I, st, p, ('vec', rest)), v)
    if all(s[0] == 'el' for s in segs):
        return [('panic', st, 'here')]
    if n == 0 and not swap and segs[0][0] == 'all' and segs[0][3] == ():
        outs = []
        for s, e in I.branch(st, I.seq_empty(st, ('vec', segs[:1]))):
            if e:
                outs.append(('panic', s, 'here') if len(segs) == 1 else ('ret', s.doubt('remove'), top('removed')))
            else:
                a = segs[0]
                outs.append(('ret', setv(I, s, p, ('vec', (('all', a[1], a[2], (('dropfront', 1),)),) + segs[1:])), I.sym(a[1] + (('n', 0),), a[2])))
        return outs
    return ret(st.doubt('remove'), top('removed'))


@model('alloc::vec::Vec::truncate')
def vec_truncate(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if p is None or p[2][0] != 'vec':
        return ret(st.doubt('truncate'), UNIT)
    segs, n = p[2][1], args[1]
    if n[0] == 'i' and all(s[0] == 'el' for s in segs[:n[1]]):
        return ret(setv(I, st, p, ('vec', segs[:n[1]])), UNIT)
    if n[0] == 'len' and segs[:len(n[1])] == n[1]:
        return ret(setv(I, st, p, ('vec', n[1])), UNIT)
    return ret(setv(I, st, p, ('vec', (('unk', 'truncate'),))).doubt('truncate'), UNIT)


@model('alloc::vec::Vec::split_off')
def vec_split_off(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if p is None or p[2][0] != 'vec':
        return ret(st.doubt('split_off'), top('split_off'))
    segs, n = p[2][1], args[1]
    if n[0] == 'i' and all(s[0] == 'el' for s in segs[:n[1]]):
        return ret(setv(I, st, p, ('vec', segs[:n[1]])), ('vec', segs[n[1]:]))
    if n[0] == 'len' and segs[:len(n[1])] == n[1]:
        return ret(setv(I, st, p, ('vec', n[1])), ('vec', segs[len(n[1]):]))
    return ret(setv(I, st, p, ('vec', (('unk', 'split_off'),))).doubt('split_off'), top('split_off'))


@model('alloc::vec::Vec::drain')
def vec_drain(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if p is None or p[2][0] != 'vec':
        return ret(st.doubt('drain'), ('it', 'unk', 'drain'))
    segs = p[2][1]
    r = args[1]
    t = I.ty(r[1]).get('path') if r[0] == 'adt' else ''
    if t == 'core::ops::range::RangeFull' or (r[0] == 'adt' and not r[3]):
        return ret(setv(I, st, p, ('vec', ())), ('it', 'list', segs, 'own'))
    if t == 'core::ops::range::RangeFrom':
        n = r[3][0]
        if n[0] == 'i' and all(s[0] == 'el' for s in segs[:n[1]]):
            return ret(setv(I, st, p, ('vec', segs[:n[1]])), ('it', 'list', segs[n[1]:], 'own'))
        if n[0] == 'len' and segs[:len(n[1])] == n[1]:
            return ret(setv(I, st, p, ('vec', n[1])), ('it', 'list', segs[len(n[1]):], 'own'))
    return ret(setv(I, st, p, ('vec', (('unk', 'drain'),))).doubt('drain'), ('it', 'unk', 'drain'))


@model('alloc::vec::Vec::append')
def vec_append(I, st, args, c, site, k):
    p, q = vec_place(I, st, args[0]), vec_place(I, st, args[1])
    if not p or not q or p[2][0] != 'vec' or q[2][0] != 'vec':
        return ret(st.doubt('append'), UNIT)
    s = setv(I, st, p, ('vec', p[2][1] + q[2][1]))
    return ret(setv(I, s, q, ('vec', ())), UNIT)


@model('alloc::vec::Vec::extend_from_slice')
def vec_extend_slice(I, st, args, c, site, k):
    p, q = vec_place(I, st, args[0]), I.strip(st, args[1])
    if not p or p[2][0] != 'vec' or q[0] != 'vec':
        return ret(st.doubt('extend'), UNIT)
    return ret(setv(I, st, p, ('vec', p[2][1] + q[1])), UNIT)


@model('core::slice::reverse', 'alloc::vec::Vec::reverse')
def vec_reverse(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if not p or p[2][0] != 'vec':
        return ret(st.doubt('reverse'), UNIT)
    return ret(setv(I, st, p, ('vec', rev_segs(p[2][1]))), UNIT)


def rev_mods(m):
    return tuple(x for x in m if x != ('rev',)) if ('rev',) in m else m + (('rev',),)


def rev_segs(segs):
    out = []
    for s in reversed(segs):
        if s[0] == 'el' or s[0] == 'unk':
            out.append(s)
        elif s[0] == 'all':
            out.append(('all', s[1], s[2], rev_mods(s[3])))
        elif s[0] == 'map':
            out.append(('map', s[1], rev_mods(s[2]), s[3], s[4], frozenset((g, rev_segs(d)) for g, d in s[5])))
        else:
            out.append(('unk', 'reverse'))
    return tuple(out)


@model('core::slice::first', 'core::slice::last', 'core::slice::first_mut', 'core::slice::last_mut')
def slice_first(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if not p or p[2][0] != 'vec':
        return ret(st.doubt('first'), top('first'))
    segs = p[2][1]
    last = '::last' in strip_generics(c['path'])
    if not segs:
        return ret(st, opt(None))
    s = segs[-1 if last else 0]
    if s[0] == 'el':
        if last:
            return ret(st, opt(('ref', p[0], p[1] + (('last',),)) if p[0][0] != 'V' and c['path'].endswith('_mut') else ('ref', ('V', s[1]), ())))
        return ret(st, opt(('ref', p[0], p[1] + (('e', ('i', 0)),)) if p[0][0] != 'V' else ('ref', ('V', s[1]), ())))
    if s[0] == 'all' and s[3] == () and len(segs) == 1:
        outs = []
        for s2, e in I.branch(st, I.seq_empty(st, p[2])):
            outs.append(('ret', s2, opt(None) if e else opt(('ref', ('V', I.sym(s[1] + (('n', -1 if last else 0),), s[2])), ()))))
        return outs
    return ret(st.doubt('first/last'), top('first'))


@model('core::slice::split_first', 'core::slice::split_last', 'core::slice::split_at', 'core::slice::split_at_checked')
def slice_split(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    fn = strip_generics(c['path']).rsplit('::', 1)[1]
    if v[0] != 'vec' or not all(s[0] == 'el' for s in v[1]):
        return ret(st.doubt(fn), top(fn))
    part = lambda els: ('ref', ('V', ('vec', tuple(els))), ())
    els = v[1]
    if fn in ('split_first', 'split_last'):
        if not els:
            return ret(st, opt(None))
        i = 0 if fn == 'split_first' else len(els) - 1
        return ret(st, opt(('tup', (('ref', ('V', els[i][1]), ()), part(els[:i] + els[i + 1:])))))
    if args[1][0] != 'i':
        return ret(st.doubt(fn), top(fn))
    n = args[1][1]
    if n > len(els):
        return ret(st, opt(None)) if fn == 'split_at_checked' else [('panic', st, 'here')]
    r = ('tup', (part(els[:n]), part(els[n:])))
    return ret(st, opt(r) if fn == 'split_at_checked' else r)


def nondet(st, *key):
    """a condition that can be either way"""
    return ('c', ('nd',) + key)


@model('core::slice::contains')
def slice_contains(I, st, args, c, site, k):
    v, x = I.strip(st, args[0]), I.strip(st, args[1])
    if v[0] != 'vec' or x[0] == 'top':
        return ret(st.doubt('contains'), top('contains'))
    if not v[1]:
        return ret(st, ('b', False))
    if all(s[0] == 'el' for s in v[1]):
        cur, outs = [st], []
        for s in v[1]:
            nxt = []
            for s1 in cur:
                for s2, b in I.eq(s1, s[1], x):
                    if b:
                        outs.append(('ret', s2, ('b', True)))
                    else:
                        nxt.append(s2)
            cur = nxt
        return outs + [('ret', s, ('b', False)) for s in cur]
    return ret(st, nondet(st, 'contains', site, x))


@model('std::collections::hash::set::HashSet::new', 'alloc::collections::btree::set::BTreeSet::new', 'std::collections::hash::map::HashMap::new', 'alloc::collections::btree::map::BTreeMap::new')
def set_new(I, st, args, c, site, k):
    return ret(st, ('sym', ('set', site), '#set'))


@model('std::collections::hash::set::HashSet::insert', 'alloc::collections::btree::set::BTreeSet::insert', 'std::collections::hash::set::HashSet::contains', 'alloc::collections::btree::set::BTreeSet::contains',
       'std::collections::hash::set::HashSet::remove', 'alloc::collections::btree::set::BTreeSet::remove', 'std::collections::hash::map::HashMap::contains_key', 'alloc::collections::btree::map::BTreeMap::contains_key')
def set_op(I, st, args, c, site, k):
    return ret(st, nondet(st, 'set', site, I.strip(st, args[1])))


@model('core::slice::get', 'core::slice::get_mut')
def slice_get(I, st, args, c, site, k):
    p = vec_place(I, st, args[0])
    if p and p[2][0] == 'vec' and args[1][0] == 'i':
        n = args[1][1]
        segs = p[2][1]
        if all(s[0] == 'el' for s in segs):
            return ret(st, opt(('ref', p[0], p[1] + (('e', ('i', n)),)) if p[0][0] != 'V' else ('ref', ('V', segs[n][1]), ())) if n < len(segs) else opt(None))
        if n == 0:
            return slice_first(I, st, [args[0]], {'path': 'core::slice::first', 'decl': ''}, site, k)
        if segs[0][0] == 'all' and segs[0][3] == () and len(segs) == 1:
            cond = ('lenge', segs[0][1], n + 1)
            return [('ret', s, opt(('ref', ('V', I.sym(segs[0][1] + (('n', n),), segs[0][2])), ())) if b else opt(None)) for s, b in I.assume(st, cond)]
    if p and p[2][0] == 'vec' and args[1][0] == 'idx':
        return ret(st, opt(('ref', ('V', I.elem(st, p[2], args[1])), ())))
    return ret(st.doubt('get'), top('get'))


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(I, st, args, c, site, k):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and f.get('body'):
        return NotImplemented
    p = vec_place(I, st, args[0])
    if p and p[2][0] == 'vec':
        ix = args[1]
        if ix[0] == 'i':
            segs = p[2][1]
            if all(s[0] == 'el' for s in segs):
                if ix[1] >= len(segs):
                    return [('panic', st, 'here')]
                return ret(st, ('ref', p[0], p[1] + (('e', ix),)) if p[0][0] != 'V' else ('ref', ('V', segs[ix[1]][1]), ()))
            if len(segs) == 1 and segs[0][0] == 'all' and segs[0][3] == ():
                P = segs[0][1]
                cond = ('cn', ('empty', P)) if ix[1] == 0 else ('c', ('lenge', P, ix[1] + 1))
                return [('ret', s, ('ref', ('V', I.sym(P + (('n', ix[1]),), segs[0][2])), ())) if b else ('panic', s, 'here') for s, b in I.branch(st, cond)]
        if ix[0] == 'idx':
            return ret(st, ('ref', ('V', I.elem(st, p[2], ix)), ()))
        if ix[0] == 'adt':
            t = I.ty(ix[1]).get('path')
            if t == 'core::ops::range::RangeFull':
                return ret(st, args[0])
            if t == 'core::ops::range::RangeFrom' and ix[3][0][0] == 'i' and all(s[0] == 'el' for s in p[2][1]):
                return ret(st, ('ref', ('V', ('vec', p[2][1][ix[3][0][1]:])), ()))
    v = I.strip(st, args[0])
    if v[0] == 's' and args[1][0] == 'adt' and I.ty(args[1][1]).get('path') == 'core::ops::range::RangeFull':
        return ret(st, v)
    return [('ret', st.doubt('index'), top('index')), ('panic', st.doubt('index'), 'here')]


def iter_places(I, st, a):
    """iterator over mutable references to the elements of a vector of known length"""
    p = vec_place(I, st, a)
    if p and p[0][0] != 'V' and p[2][0] == 'vec' and all(x[0] == 'el' for x in p[2][1]):
        return ('it', 'list', tuple(('el', ('ref', p[0], p[1] + (('e', ('i', n)),))) for n in range(len(p[2][1]))), 'own')


@model('core::slice::iter', 'core::slice::iter_mut', 'alloc::vec::Vec::iter')
def slice_iter(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    if c['path'].endswith('iter_mut'):
        it = iter_places(I, st, args[0])
        if it:
            return ret(st, it)
    if v[0] == 'vec':
        mode = 'ref'
        return ret(st if not c['path'].endswith('iter_mut') else st.doubt('iter_mut'), ('it', 'list', v[1], mode))
    return ret(st, ('it', 'unk', 'iter'))


@model('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(I, st, args, c, site, k):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and f.get('body'):
        return NotImplemented
    a = args[0]
    if a[0] == 'it':
        return ret(st, a)
    if a[0] == 'ref':
        v = I.deref1(st, a)
        if v[0] == 'it':
            return ret(st, a)
        t = (c.get('dargs') or [''])[0]
        v = I.strip(st, a)
        if v[0] == 'vec':
            it = iter_places(I, st, a) if I.ty(t).get('mut') else None
            if it:
                return ret(st, it)
            s = st.doubt('iter_mut') if I.ty(t).get('mut') else st
            return ret(s, ('it', 'list', v[1], 'ref'))
        if v[0] in ('adt', 'sym') and I.ty(v[1] if v[0] == 'adt' else v[2]).get('path') == 'core::option::Option':
            return [('ret', s, ('it', 'list', (('el', x),) if sm else (), 'ref')) for s, sm, x in I.opt_cases(st, v)]
    if a[0] == 'vec':
        return ret(st, ('it', 'list', a[1], 'own'))
    if a[0] in ('adt', 'sym'):
        t = I.ty(a[1] if a[0] == 'adt' else a[2])
        if t.get('path') == 'core::option::Option' or a[1] == OPT:
            return [('ret', s, ('it', 'list', (('el', x),) if sm else (), 'own')) for s, sm, x in I.opt_cases(st, a)]
        if t.get('path') == 'core::ops::range::Range':
            return ret(st, a)
        f = I.funcs.get(c['name'])
        if f and f.get('body'):
            return NotImplemented
    if a[0] == 'box':
        return into_iter(I, st, [a[1]], c, site, k)
    return ret(st.doubt('into_iter of ' + a[0]), ('it', 'unk', 'into_iter of ' + a[0]))


def as_it(I, st, v):
    """iterator value + place to write it back to (or None)"""
    place = None
    while v[0] == 'ref':
        place = (v[1], v[2])
        v = I.read(st, v[1], v[2])
    if v[0] == 'box':
        v = v[1]
        place = None
    if v[0] == 'it':
        return v, place
    if v[0] == 'adt' and I.ty(v[1]).get('path') == 'core::ops::range::Range':
        lo, hi = v[3]
        if lo[0] == 'i' and hi[0] == 'i':
            return ('it', 'list', tuple(('el', ('i', x)) for x in range(lo[1], min(hi[1], lo[1] + 256))), 'own'), place
        if lo == ('i', 0) and hi[0] == 'len' and len(hi[1]) == 1 and hi[1][0][0] in ('all', 'map'):
            sg = hi[1][0]
            if (sg[3] if sg[0] == 'all' else sg[2]) == ():
                return ('it', 'idx', ('it', 'list', (('all', sg[1], '', ()),), 'own')), place
    return ('it', 'unk', 'iterator ' + v[0]), place


def pull_from(I, st, a, k):
    """pulls from an iterator argument; k(state, item|None) with the iterator written back"""
    it, place = as_it(I, st, a)

    def kk(s, it2, item):
        if place is not None:
            s = s.copy()
            I.write(s, place[0], place[1], it2)
        return k(s, item)
    if it[1] == 'idx':
        inner = it[2]
        P = inner[2][0][1] if inner[2] else None

        def ki(s, inner2, item):
            if item is None:
                return kk(s, ('it', 'idx', inner2), None)
            act = I.active(inner2)
            return kk(s, ('it', 'idx', inner2), ('idx', act[1][1], act[2][1]) if act else top('index'))
        return I.pull(st, inner, ki)
    return I.pull(st, it, kk)


_old_pull = Interp.pull


def _pull(self, st, it, k):
    if it[1] == 'idx':
        def ki(s, inner2, item):
            if item is None:
                return k(s, ('it', 'idx', inner2), None)
            act = self.active(inner2)
            return k(s, ('it', 'idx', inner2), ('idx', act[1][1], act[2][1]) if act else top('index'))
        return _old_pull(self, st, it[2], ki)
    if it[1] == 'split':
        _, _, src, n, last, left = it
        if src is None:
            return k(st, it, None)
        if left == 0:
            return k(st, it[:2] + (None,) + it[3:], src)
        if left is not None and left < -4:
            return k(st.doubt('long split'), ('it', 'unk', 'split'), top('split'))
        out = []
        for s2, a, b in pieces_split(self, st, src, n, last):
            item, rest = (src, None) if a is None else (b, a) if last else (a, b)
            out += k(s2, ('it', 'split', rest, n, last, left - 1), item)
        return out
    if it[1] == 'takeN':
        if it[3] == 0:
            return k(st, it, None)
        return self.pull(st, it[2], lambda s, inner, item: k(s, ('it', 'takeN', inner, it[3] - 1), item))
    if it[1] == 'skipN':
        def ks(s, inner, item):
            if item is None or it[3] == 0:
                return k(s, ('it', 'skipN', inner, it[3]), item)
            return self.pull(s, ('it', 'skipN', inner, it[3] - 1), k)
        return self.pull(st, it[2], ks)
    if it[1] == 'byref':
        def kb(s, item):
            return k(s, it, item)
        return pull_from(self, st, it[2], kb)
    return _old_pull(self, st, it, k)


Interp.pull = _pull


@model('core::iter::traits::iterator::Iterator::next')
def it_next(I, st, args, c, site, k):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and f.get('body'):
        return NotImplemented
    if k is None:
        outs = pull_from(I, st, args[0], lambda s, item: [('ret', s, opt(item))])
        return outs
    return [('done', o) for o in pull_from(I, st, args[0], lambda s, item: k(s, opt(item)))]


def adapter(name, build):
    @model('core::iter::traits::iterator::Iterator::' + name)
    def f(I, st, args, c, site, k):
        g = I.funcs.get(c['name'])
        it, place = as_it(I, st, args[0])
        if place is not None:
            it = ('it', 'byref', args[0])
        if it[1] == 'unk':
            st = st.doubt('iterator adapter on unknown')
        return ret(st, build(I, st, it, args, c))
    return f


adapter('map', lambda I, st, it, a, c: ('it', 'map', it, a[1]))
adapter('filter', lambda I, st, it, a, c: ('it', 'filter', it, a[1]))
adapter('filter_map', lambda I, st, it, a, c: ('it', 'filter_map', it, a[1]))
adapter('flat_map', lambda I, st, it, a, c: ('it', 'flat', it, a[1], None))
adapter('flatten', lambda I, st, it, a, c: ('it', 'flat', it, None, None))
adapter('inspect', lambda I, st, it, a, c: ('it', 'inspect', it, a[1]))
adapter('cloned', lambda I, st, it, a, c: ('it', 'deref', it))
adapter('copied', lambda I, st, it, a, c: ('it', 'deref', it))
adapter('enumerate', lambda I, st, it, a, c: ('it', 'enum', it, 0))
adapter('chain', lambda I, st, it, a, c: ('it', 'chain', it, I.to_iter(st, a[1])))
adapter('zip', lambda I, st, it, a, c: ('it', 'zip', it, I.to_iter(st, a[1])))
adapter('take_while', lambda I, st, it, a, c: ('it', 'take_while', it, a[1], False))
adapter('skip_while', lambda I, st, it, a, c: ('it', 'skip_while', it, a[1], False))
adapter('map_while', lambda I, st, it, a, c: ('it', 'map_while', it, a[1], False))
adapter('peekable', lambda I, st, it, a, c: ('it', 'peek', it, ()))
adapter('fuse', lambda I, st, it, a, c: it)


def rev_it(it):
    if it[1] == 'list':
        return ('it', 'list', rev_segs(it[2]), it[3])
    if it[1] in ('map', 'filter', 'filter_map', 'inspect'):
        return it[:2] + (rev_it(it[2]),) + it[3:]
    if it[1] == 'deref':
        return ('it', 'deref', rev_it(it[2]))
    if it[1] == 'chain':
        return ('it', 'chain', rev_it(it[3]), rev_it(it[2]))
    return ('it', 'unk', 'rev')


adapter('rev', lambda I, st, it, a, c: rev_it(it))


def limit_it(it, kind, n):
    if it[1] == 'list':
        segs = it[2]
        if n[0] == 'i' and all(s[0] == 'el' for s in segs[:n[1]]) and len(segs) >= n[1] or all(s[0] == 'el' for s in segs):
            if n[0] == 'i':
                return ('it', 'list', segs[n[1]:] if kind == 'skip' else segs[:n[1]], it[3])
        if n[0] == 'i' and len(segs) == 1 and segs[0][0] == 'all':
            if n[1] == 0 and kind == 'skip':
                return it
            return ('it', 'list', (('all', segs[0][1], segs[0][2], segs[0][3] + ((kind, n[1]),)),), it[3])
        if n[0] == 'len' and n[1] == segs:
            return it if kind == 'take' else ('it', 'list', (), it[3])
        if len(segs) == 1 and segs[0][0] == 'all':
            return ('it', 'list', (('all', segs[0][1], segs[0][2], segs[0][3] + ((kind, n),)),), it[3])
    if it[1] in ('map', 'inspect'):
        return it[:2] + (limit_it(it[2], kind, n),) + it[3:]
    if it[1] == 'deref':
        return ('it', 'deref', limit_it(it[2], kind, n))
    if kind in ('skip', 'take') and n[0] == 'i' and finite(it):
        return ('it', kind + 'N', it, n[1])
    return ('it', 'unk', kind)


adapter('skip', lambda I, st, it, a, c: limit_it(it, 'skip', a[1]))
adapter('take', lambda I, st, it, a, c: limit_it(it, 'take', a[1]))
adapter('step_by', lambda I, st, it, a, c: limit_it(it, 'step', a[1]) if a[1] != ('i', 1) else it)


@model('core::iter::sources::once::once', 'core::iter::once')
def it_once(I, st, args, c, site, k):
    return ret(st, ('it', 'list', (('el', args[0]),), 'own'))


@model('core::iter::sources::empty::empty', 'core::iter::empty')
def it_empty(I, st, args, c, site, k):
    return ret(st, ('it', 'list', (), 'own'))


class Drive:
    """drives an iterator to the end with accumulators kept in memory cells, so that loops can fold them"""

    def __init__(self, I, st, a, site, tag):
        self.I = I
        it, place = as_it(I, st, a)
        fid = I.fid(site[0], site[1], tag)
        self.fid = fid
        self.st = st.copy()
        if place is None:
            self.itroot = ('T', fid, 'it')
            self.st.mem[self.itroot] = it
            self.a = ('ref', self.itroot, ())
        else:
            self.itroot = None
            self.a = ('ref', place[0], place[1])

    def cell(self, name):
        return ('T', self.fid, name)

    def go(self, st, body, end):
        """body(state, item) -> [('ret', state, None) to continue | ('brk', state, value) | other]"""
        def step(s):
            return pull_from(self.I, s, self.a, on)

        def on(s, item):
            if item is None:
                return end(s)
            outs = []
            for o in body(s, item):
                if o[0] == 'ret':
                    outs += step(o[1])
                elif o[0] == 'brk':
                    outs.append(('ret', o[1], o[2]))
                else:
                    outs.append(o)
            return outs
        outs = step(st)
        res = []
        for o in outs:
            if o[0] == 'ret':
                s = o[1].copy()
                self.I.drop_frame(s, self.fid)
                res.append(('ret', s, o[2]))
            else:
                res.append(o)
        return res


def inv(I, s, f, args, cell, site):
    """invokes the closure stored in memory cell `cell` (keeps its mutated state)"""
    outs = I.invoke(s, s.mem[cell], args, site)
    res = []
    for o in outs:
        if o[0] == 'ret':
            s2 = o[1].copy()
            s2.mem[cell] = o[2][1]
            res.append(('ret', s2, o[2][0]))
        else:
            res.append(o)
    return res


@model('core::iter::traits::iterator::Iterator::for_each')
def it_for_each(I, st, args, c, site, k):
    d = Drive(I, st, args[0], site, 'for_each')
    fc = d.cell('f')
    d.st.mem[fc] = args[1]
    return d.go(d.st, lambda s, x: inv(I, s, None, [x], fc, d.fid), lambda s: ret(s, UNIT))


def is_res(I, t):
    return I.ty(t).get('path') == 'core::result::Result'


@model('core::iter::traits::iterator::Iterator::try_for_each')
def it_try_for_each(I, st, args, c, site, k):
    d = Drive(I, st, args[0], site, 'try_for_each')
    fc = d.cell('f')
    d.st.mem[fc] = args[1]
    rt = (c.get('targs') or c.get('dargs') or [''])
    isopt = any(I.ty(t).get('path') == 'core::option::Option' for t in rt) and not any(is_res(I, t) for t in rt)

    def body(s, x):
        outs = []
        for o in inv(I, s, None, [x], fc, d.fid):
            if o[0] != 'ret':
                outs.append(o)
                continue
            for s2, good, p in (I.opt_cases(o[1], o[2]) if isopt else I.res_cases(o[1], o[2])):
                outs.append(('ret', s2, None) if good else ('brk', s2, opt(None) if isopt else err(p)))
        return outs
    return d.go(d.st, body, lambda s: ret(s, opt(UNIT) if isopt else ok(UNIT)))


@model('core::iter::traits::iterator::Iterator::fold', 'core::iter::traits::iterator::Iterator::try_fold')
def it_fold(I, st, args, c, site, k):
    tr = 'try_fold' in c['decl']
    d = Drive(I, st, args[0], site, 'fold')
    fc, acc = d.cell('f'), d.cell('acc')
    d.st.mem[fc] = args[2]
    d.st.mem[acc] = args[1]
    rt = (c.get('targs') or [''])
    isopt = any(I.ty(t).get('path') == 'core::option::Option' for t in rt) and not any(is_res(I, t) for t in rt)

    def body(s, x):
        outs = []
        for o in inv(I, s, None, [s.mem[acc], x], fc, d.fid):
            if o[0] != 'ret':
                outs.append(o)
                continue
            if not tr:
                s2 = o[1].copy()
                s2.mem[acc] = o[2]
                outs.append(('ret', s2, None))
                continue
            for s2, good, p in (I.opt_cases(o[1], o[2]) if isopt else I.res_cases(o[1], o[2])):
                if good:
                    s2 = s2.copy()
                    s2.mem[acc] = p
                    outs.append(('ret', s2, None))
                else:
                    outs.append(('brk', s2, opt(None) if isopt else err(p)))
        return outs

    def end(s):
        v = s.mem[acc]
        return ret(s, v if not tr else opt(v) if isopt else ok(v))
    return d.go(d.st, body, end)


@model('core::iter::traits::iterator::Iterator::find', 'core::iter::traits::iterator::Iterator::any', 'core::iter::traits::iterator::Iterator::all',
       'core::iter::traits::iterator::Iterator::position', 'core::iter::traits::iterator::Iterator::find_map')
def it_find(I, st, args, c, site, k):
    m = c['decl'].rsplit('::', 1)[1]
    d = Drive(I, st, args[0], site, m)
    fc = d.cell('f')
    d.st.mem[fc] = args[1]
    num = d.cell('n') if m == 'position' and finite(as_it(I, st, args[0])[0]) else None
    if num:
        d.st.mem[num] = ('i', 0)

    def body(s, x):
        outs = []
        if num:
            s = s.copy()
            at = s.mem[num]
            s.mem[num] = ('i', at[1] + 1)
        for o in inv(I, s, None, [I.tmpref(s, x) if m == 'find' else x], fc, d.fid):
            if o[0] != 'ret':
                outs.append(o)
                continue
            if m == 'find_map':
                for s2, sm, p in I.opt_cases(o[1], o[2]):
                    outs.append(('brk', s2, opt(p)) if sm else ('ret', s2, None))
                continue
            for s2, b in I.branch(o[1], o[2]):
                if m == 'find' and b:
                    outs.append(('brk', s2, opt(x)))
                elif m == 'any' and b:
                    outs.append(('brk', s2, ('b', True)))
                elif m == 'all' and not b:
                    outs.append(('brk', s2, ('b', False)))
                elif num and b:
                    outs.append(('brk', s2, opt(at)))
                elif m == 'position' and b:
                    outs.append(('brk', s2.doubt('position'), opt(top('position'))))
                else:
                    outs.append(('ret', s2, None))
        return outs
    return d.go(d.st, body, lambda s: ret(s, {'find': opt(None), 'find_map': opt(None), 'any': ('b', False), 'all': ('b', True), 'position': opt(None)}[m]))


@model('core::iter::traits::iterator::Iterator::rposition', 'core::iter::traits::double_ended::DoubleEndedIterator::rfind')
def it_rposition(I, st, args, c, site, k):
    it, place = as_it(I, st, args[0])
    if it[1] != 'list' or not all(s[0] == 'el' for s in it[2]):
        return ret(st.doubt('search from the end'), top('rposition'))
    find = c['decl'].endswith('rfind')
    cur, outs = [st], []
    for n in range(len(it[2]) - 1, -1, -1):
        x, nxt = I.wrap(it[2][n][1], it[3]), []
        for s in cur:
            for o in I.invoke(s, args[1], [I.tmpref(s, x) if find else x], (site, 'rposition')):
                if o[0] != 'ret':
                    outs.append(o)
                    continue
                for s2, b in I.branch(o[1], o[2][0]):
                    if not b:
                        nxt.append(s2)
                        continue
                    s2 = s2.copy()
                    if place:
                        I.write(s2, place[0], place[1], ('it', 'list', it[2][:n], it[3]))
                    outs.append(('ret', s2, opt(x if find else ('i', n))))
        cur = nxt
    for s in cur:
        s = s.copy()
        if place:
            I.write(s, place[0], place[1], ('it', 'list', (), it[3]))
        outs.append(('ret', s, opt(None)))
    return outs


@model('core::slice::windows', 'core::slice::chunks')
def slice_windows(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    if v[0] != 'vec' or not all(s[0] == 'el' for s in v[1]) or args[1][0] != 'i' or args[1][1] < 1:
        return ret(st.doubt('windows'), ('it', 'unk', 'windows'))
    n, els = args[1][1], v[1]
    ws = [els[i:i + n] for i in range(len(els) - n + 1)] if strip_generics(c['path']).endswith('windows') else [els[i:i + n] for i in range(0, len(els), n)]
    return ret(st, ('it', 'list', tuple(('el', ('ref', ('V', ('vec', w)), ())) for w in ws), 'own'))


@model('core::iter::traits::iterator::Iterator::last')
def it_last(I, st, args, c, site, k):
    d = Drive(I, st, args[0], site, 'last')
    acc = d.cell('acc')
    d.st.mem[acc] = opt(None)

    def body(s, x):
        s = s.copy()
        s.mem[acc] = opt(x)
        return ret(s, None)
    return d.go(d.st, body, lambda s: ret(s, s.mem[acc]))


@model('core::iter::traits::iterator::Iterator::count')
def it_count(I, st, args, c, site, k):
    it, place = as_it(I, st, args[0])
    if it[1] == 'list':
        return ret(st, I.length(st, ('vec', it[2])))
    if not finite(it):
        return ret(st.doubt('count'), top('count'))
    return total(I, st, args, site, 'count', lambda s, x: ('i', 1))


def finite(it):
    """does the iterator come from lists whose elements are all there?"""
    if it[1] == 'list':
        return all(s[0] == 'el' for s in it[2])
    if it[1] in ('map', 'filter', 'filter_map', 'inspect', 'deref', 'enum', 'take_while', 'skip_while', 'map_while', 'takeN', 'skipN'):
        return finite(it[2])
    if it[1] in ('chain', 'zip'):
        return finite(it[2]) and finite(it[3])
    return False


def total(I, st, args, site, tag, by):
    d = Drive(I, st, args[0], site, tag)
    acc = d.cell('acc')
    d.st.mem[acc] = ('i', 0)

    def body(s, x):
        s = s.copy()
        s.mem[acc] = I.arith(s, 'Add', s.mem[acc], by(s, x))
        return ret(s, None)
    return d.go(d.st, body, lambda s: ret(s, s.mem[acc]))


@model('core::iter::traits::iterator::Iterator::sum')
def it_sum(I, st, args, c, site, k):
    it, place = as_it(I, st, args[0])
    if not finite(it):
        return ret(st.doubt('sum'), top('sum'))
    return total(I, st, args, site, 'sum', lambda s, x: I.strip(s, x))


@model('core::iter::traits::iterator::Iterator::nth')
def it_nth(I, st, args, c, site, k):
    it, place = as_it(I, st, args[0])
    if args[1][0] == 'i' and it[1] == 'list' and all(s[0] == 'el' for s in it[2]):
        n = args[1][1]
        its = it[2]
        s = st.copy()
        if place:
            I.write(s, place[0], place[1], ('it', 'list', its[n + 1:], it[3]))
        return ret(s, opt(I.wrap(its[n][1], it[3])) if n < len(its) else opt(None))
    return ret(st.doubt('nth'), top('nth'))


@model('core::iter::traits::iterator::Iterator::collect', 'core::iter::traits::collect::FromIterator::from_iter', 'alloc::vec::Vec::from_iter')
def it_collect(I, st, args, c, site, k):
    ts = c.get('targs') or []
    t = ts[-1] if ts else ''
    if 'from_iter' in c['decl']:
        t = (c.get('dargs') or [''])[0]
        f = I.funcs.get(c['name'])
        if f and f.get('local') and f.get('body'):
            return NotImplemented
    kt = I.ty(t)
    inner, wrapk = t, None
    if kt.get('path') == 'core::result::Result':
        wrapk, inner = 'res', kt['args'][0]
    elif kt.get('path') == 'core::option::Option':
        wrapk, inner = 'opt', kt['args'][0]
    ki = I.ty(inner)
    d = Drive(I, st, args[0], site, 'collect')
    acc = d.cell('acc')
    if I.is_string(inner):
        d.st.mem[acc] = lit('')
    elif ki.get('path') == 'alloc::vec::Vec' or ki['k'] == 'slice' or I.is_box(inner) or ki.get('path') == 'alloc::collections::vec_deque::VecDeque':
        d.st.mem[acc] = ('vec', ())
    elif ki['k'] == 'tuple' and not ki['args']:
        d.st.mem[acc] = UNIT
    elif ki.get('local'):
        # user-defined FromIterator
        n = None
        for fn, f in I.funcs.items():
            if f.get('trait', '').startswith('core::iter::traits::collect::FromIterator') and f.get('self_ty') == inner and f.get('body'):
                n = fn
        if n and not wrapk:
            return I.exec_fn(st, n, [args[0]], site[0], site[1])
        return ret(st.doubt('collect into ' + t), top('collect'))
    else:
        return ret(st.doubt('collect into ' + t), top('collect'))

    def add(s, v):
        s = s.copy()
        a = s.mem[acc]
        if a[0] == 'vec':
            s.mem[acc] = ('vec', a[1] + (('el', v),))
        elif a[0] == 's':
            v = I.strip(s, v)
            if v[0] == 's':
                s.mem[acc] = ('s', cat(a[1], v[1]))
            elif v[0] == 'ch':
                s.mem[acc] = ('s', cat(a[1], (('lit', v[1]),)))
            elif v[0] == 'sym':
                s.mem[acc] = ('s', cat(a[1], (('disp', v),)))
            else:
                s.mem[acc] = top('collect')
        elif a == UNIT:
            pass
        else:
            s.mem[acc] = top('collect')
        return ret(s, None)

    def body(s, x):
        if wrapk is None:
            return add(s, x)
        outs = []
        for s2, good, p in (I.res_cases(s, x) if wrapk == 'res' else I.opt_cases(s, x)):
            outs += add(s2, p) if good else [('brk', s2, err(p) if wrapk == 'res' else opt(None))]
        return outs

    def end(s):
        v = s.mem[acc]
        return ret(s, v if wrapk is None else ok(v) if wrapk == 'res' else opt(v))
    return d.go(d.st, body, end)


@model('core::iter::traits::collect::Extend::extend')
def extend(I, st, args, c, site, k):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and f.get('body'):
        return NotImplemented
    src = args[1]
    v = I.strip(st, src)
    if v[0] == 'vec':
        src = ('it', 'list', v[1], 'ref' if src[0] == 'ref' else 'own')
        if src[3] == 'ref':
            src = ('it', 'deref', src)
    elif v[0] in ('adt', 'sym') and (v[1] == OPT or I.ty(v[1] if v[0] == 'adt' else v[2]).get('path') == 'core::option::Option'):
        outs = []
        for s, sm, x in I.opt_cases(st, v):
            outs += vec_push(I, s, [args[0], x], c, site, k) if sm else ret(s, UNIT)
        return outs
    d = Drive(I, st, src, site, 'extend')

    def body(s, x):
        vv = I.strip(s, args[0])
        if vv[0] == 's':
            return push_str(I, s, [args[0], x], c, site, k)
        return vec_push(I, s, [args[0], x], c, site, k)
    return d.go(d.st, body, lambda s: ret(s, UNIT))


@model('core::iter::adapters::peekable::Peekable::peek')
def peek(I, st, args, c, site, k):
    a = args[0]
    it = I.read(st, a[1], a[2]) if a[0] == 'ref' else a
    if it[0] != 'it' or it[1] != 'peek':
        return ret(st.doubt('peek'), top('peek'))
    if it[3]:
        x = it[3][0]
        return ret(st, opt(None if x is None else ('ref', ('V', x), ())))

    def kk(s, it2, item):
        s = s.copy()
        I.write(s, a[1], a[2], ('it', 'peek', it2, (item,)))
        return k(s, opt(None if item is None else ('ref', ('V', item), ()))) if k else ret(s, opt(None if item is None else ('ref', ('V', item), ())))
    outs = I.pull(st, it[2], kk)
    return [('done', o) for o in outs] if k else outs


# ------------------------------------------------------------------ strings
@model('alloc::string::String::new', 'alloc::string::String::with_capacity')
def string_new(I, st, args, c, site, k):
    return ret(st, lit(''))


@model('alloc::string::String::push_str', 'alloc::string::String::push', 'core::fmt::Write::write_str', 'core::fmt::Write::write_char', 'core::fmt::Formatter::write_str',
       'core::fmt::Formatter::write_char', 'core::fmt::Formatter::pad')
def push_str(I, st, args, c, site, k):
    a = args[0]
    v = I.strip(st, args[1])
    unit = UNIT if 'String::push' in strip_generics(c['path']) or 'extend' in c['decl'] else ok(UNIT)
    if a[0] != 'ref':
        return ret(st.doubt('push_str'), unit)
    while True:
        t = I.read(st, a[1], a[2])
        if t[0] == 'ref':
            a = t
        else:
            break
    add = v[1] if v[0] == 's' else (('lit', v[1]),) if v[0] == 'ch' else (('disp', v),) if v[0] == 'sym' else None
    if t[0] == 's' and add is not None:
        s = st.copy()
        I.write(s, a[1], a[2], ('s', cat(t[1], add)))
        return ret(s, unit)
    if t[0] == 'fmtr' and add is not None:
        s = st.copy()
        I.write(s, a[1], a[2], ('fmtr', ('s', cat(t[1][1], add))))
        return ret(s, unit)
    s = st.copy()
    if a[1][0] != 'V':
        I.write(s, a[1], a[2], ('fmtr', top('text')) if t[0] == 'fmtr' else top('text'))
    return ret(s.doubt('push_str'), unit)


@model('core::ops::arith::Add::add')
def add(I, st, args, c, site, k):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    if a[0] == 's' and b[0] == 's':
        return ret(st, ('s', cat(a[1], b[1])))
    if a[0] == 'i' and b[0] == 'i':
        return ret(st, ('i', a[1] + b[1]))
    return NotImplemented


@model('core::ops::arith::AddAssign::add_assign')
def add_assign(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    if v[0] == 's':
        return [('ret', o[1], UNIT) for o in push_str(I, st, args, c, site, k)]
    return NotImplemented


def needle(I, st, v):
    v = I.strip(st, v)
    if v[0] == 's':
        return lit_of(v)
    if v[0] == 'ch':
        return v[1]
    return None


@model('core::str::starts_with', 'core::str::ends_with', 'core::str::contains')
def starts_with(I, st, args, c, site, k):
    s, n = I.strip(st, args[0]), needle(I, st, args[1])
    kind = strip_generics(c['path']).rsplit('::', 1)[1]
    if s[0] != 's' or n is None:
        return ret(st.doubt(kind), top(kind))
    l = lit_of(s)
    if l is not None:
        return ret(st, ('b', {'starts_with': l.startswith(n), 'ends_with': l.endswith(n), 'contains': n in l}[kind]))
    known = st.facts.get(('seq', s[1]))
    if known is not None:
        return ret(st, ('b', {'starts_with': known.startswith(n), 'ends_with': known.endswith(n), 'contains': n in known}[kind]))
    if kind == 'starts_with':
        if s[1][0][0] == 'lit' and len(s[1][0][1]) >= len(n):
            return ret(st, ('b', s[1][0][1].startswith(n)))
    cond = ('pre' if kind == 'starts_with' else kind, s[1], n)
    return ret(st, ('b', False) if I.impossible(cond) else ('c', cond))


@model('core::str::strip_prefix')
def strip_prefix(I, st, args, c, site, k):
    s, n = I.strip(st, args[0]), needle(I, st, args[1])
    if s[0] != 's' or n is None:
        return ret(st.doubt('strip_prefix'), top('strip_prefix'))
    l = lit_of(s)
    if l is None:
        l = st.facts.get(('seq', s[1]))
    if l is not None:
        return ret(st, opt(lit(l[len(n):])) if l.startswith(n) else opt(None))
    return [('ret', s2, opt(('s', (('strip', s[1], n),))) if b else opt(None)) for s2, b in I.assume(st, ('pre', s[1], n))]


@model('core::str::strip_suffix')
def strip_suffix(I, st, args, c, site, k):
    s, n = I.strip(st, args[0]), needle(I, st, args[1])
    if s[0] != 's' or n is None:
        return ret(st.doubt('strip_suffix'), top('strip_suffix'))
    l = lit_of(s)
    if l is None:
        l = st.facts.get(('seq', s[1]))
    if l is not None:
        return ret(st, opt(lit(l[:len(l) - len(n)])) if l.endswith(n) else opt(None))
    return [('ret', s2, opt(('s', (('stripend', s[1], n),))) if b else opt(None)) for s2, b in I.assume(st, ('ends_with', s[1], n))]


@model('core::str::parse', 'core::str::traits::FromStr::from_str')
def str_parse(I, st, args, c, site, k):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and f.get('body'):
        return NotImplemented
    t = (c.get('targs') or c.get('dargs') or [''])[0]
    s = I.strip(st, args[0])
    if I.ty(t)['k'] != 'int' or s[0] != 's':
        ft = '<%s as core::str::traits::FromStr>::from_str' % t
        if ft in I.funcs and I.funcs[ft].get('body') and s[0] == 's':
            return I.exec_fn(st, ft, [s], site[0], site[1])
        return ret(st.doubt('parse'), top('parse'))
    l = lit_of(s)
    if l is not None:
        import re as _re
        m = _re.match(r'^\+?[0-9]+$', l)
        if m and int(l) >= 1 << (64 if t.endswith('size') else int(_re.sub('[^0-9]', '', t) or 64)):
            m = None
        return ret(st, ok(('i', int(l))) if m else err(('sym', (('parse_error', l),), 'core::num::error::ParseIntError')))
    outs = []
    for s2, b in I.assume(st, ('isnum', s[1], t)):
        outs.append(('ret', s2, ok(('num', 'parse', s)) if b else err(('sym', (('parse_error', s[1]),), 'core::num::error::ParseIntError'))))
    return outs


@model('alloc::slice::join', 'alloc::slice::concat', 'alloc::str::join', 'alloc::str::concat', 'alloc::slice::Join::join', 'alloc::slice::Concat::concat')
def join(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    sep = lit('') if len(args) < 2 else I.strip(st, args[1])
    if v[0] != 'vec' or sep[0] != 's':
        return ret(st.doubt('join'), top('join'))
    out = ()
    for i, s in enumerate(v[1]):
        if s[0] == 'el':
            x = I.strip(st, s[1])
            if x[0] != 's':
                return ret(st.doubt('join'), top('join'))
            out = cat(out, sep[1] if i else (), x[1])
        elif len(v[1]) == 1 and s[0] in ('map', 'all'):
            return ret(st, ('s', (('join', sep[1], norm_seg(s)),)))
        else:
            return ret(st.doubt('join'), top('join'))
    return ret(st, ('s', out))


def norm_seg(s):
    return s


@model('core::str::len', 'alloc::string::String::len')
def str_len(I, st, args, c, site, k):
    return ret(st, I.length(st, I.strip(st, args[0])))


@model('alloc::string::String::into_boxed_str', 'alloc::string::String::into_string', 'core::str::to_string')
def str_ident(I, st, args, c, site, k):
    return ret(st, I.strip(st, args[0]))


def pieces_split(I, st, s, n, last):
    """[(state, before|None, after)] the text s cut at its first or last n; before is None when n is not there"""
    l = lit_of(s)
    if l is None:
        l = st.facts.get(('seq', s[1]))
    if l is not None:
        if n not in l:
            return [(st, None, s)]
        a, b = l.rsplit(n, 1) if last else l.split(n, 1)
        return [(st, lit(a), lit(b))]
    out = []
    for s2, b in I.assume(st, ('contains', s[1], n)):
        if b:
            w = 'last' if last else 'first'
            out.append((s2, ('s', (('fun', 'before_' + w, s[1], (lit(n),)),)), ('s', (('fun', 'after_' + w, s[1], (lit(n),)),))))
        else:
            out.append((s2, None, s))
    return out


@model('core::str::split_once', 'core::str::rsplit_once')
def split_once(I, st, args, c, site, k):
    s, n = I.strip(st, args[0]), needle(I, st, args[1])
    last = strip_generics(c['path']).endswith('rsplit_once')
    if s[0] != 's' or not n:
        return ret(st.doubt('split_once'), top('split_once'))
    return [('ret', s2, opt(None) if a is None else opt(('tup', (a, b)))) for s2, a, b in pieces_split(I, st, s, n, last)]


@model('core::str::split', 'core::str::rsplit')
def str_split(I, st, args, c, site, k):
    s, n = I.strip(st, args[0]), needle(I, st, args[1])
    last = strip_generics(c['path']).endswith('rsplit')
    if s[0] != 's' or not n:
        return ret(st.doubt('split'), top('split'))
    l = lit_of(s)
    if l is not None:
        ps = l.split(n)
        if last:
            ps = ps[::-1]
        return ret(st, ('it', 'list', tuple(('el', lit(x)) for x in ps), 'own'))
    return ret(st, ('it', 'split', s, n, last, -1))


@model('core::str::splitn', 'core::str::rsplitn')
def str_splitn(I, st, args, c, site, k):
    s, n = I.strip(st, args[0]), needle(I, st, args[2])
    if s[0] != 's' or not n or args[1][0] != 'i' or args[1][1] == 0:
        return ret(st.doubt('splitn'), top('splitn'))
    return ret(st, ('it', 'split', s, n, strip_generics(c['path']).endswith('rsplitn'), args[1][1] - 1))


@model('core::str::trim', 'core::str::trim_start', 'core::str::trim_end', 'core::str::to_lowercase', 'core::str::to_uppercase', 'core::str::to_ascii_lowercase',
       'core::str::to_ascii_uppercase', 'alloc::str::to_lowercase', 'alloc::str::to_uppercase', 'alloc::str::replace', 'alloc::str::replacen', 'alloc::str::repeat', 'core::str::trim_left_matches', 'core::str::trim_right_matches', 'alloc::str::to_ascii_lowercase',
       'alloc::str::to_ascii_uppercase', 'core::str::trim_matches', 'core::str::trim_start_matches', 'core::str::trim_end_matches')
def str_fun(I, st, args, c, site, k):
    s = I.strip(st, args[0])
    fn = strip_generics(c['path']).rsplit('::', 1)[1]
    l = lit_of(s)
    rest = tuple(I.strip(st, a) for a in args[1:])
    if l is not None:
        try:
            return ret(st, lit(strings.fun(fn, l, [strings.arg(a, {}) for a in rest])))
        except strings.No:
            pass
    if s[0] == 's':
        # an uninterpreted function of the text: definitely not the text itself in general
        return ret(st, ('s', (('fun', fn, s[1], rest),)))
    return ret(st.doubt(fn), top(fn))


# ------------------------------------------------------------------ formatting
def template(b):
    """decodes a fmt template: [('lit',s)|('arg',index,opts)]"""
    out, i, nxt = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(('lit', bytes(b[i:i + n]).decode('utf8', 'replace')))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(('lit', bytes(b[i:i + ln]).decode('utf8', 'replace')))
            i += ln
        elif n == 0xC0:
            out.append(('arg', nxt, None))
            nxt += 1
        else:
            opts = {}
            if n & 1:
                opts['flags'] = bytes(b[i:i + 4])
                i += 4
            if n & 2:
                opts['width'] = bytes(b[i:i + 2])
                i += 2
            if n & 4:
                opts['prec'] = bytes(b[i:i + 2])
                i += 2
            if n & 16:
                opts['width'] = ('arg', opts['width'])
            if n & 32:
                opts['prec'] = ('arg', opts['prec'])
            idx = nxt
            if n & 8:
                idx = b[i] | (b[i + 1] << 8)
                i += 2
            nxt = idx + 1
            out.append(('arg', idx, tuple(sorted(opts.items())) or None))
    return out


@model('core::fmt::Arguments::new', 'core::fmt::rt::new')
def args_new(I, st, args, c, site, k):
    tmpl = I.strip(st, args[0])
    arr = I.strip(st, args[1]) if len(args) > 1 else ('vec', ())
    if tmpl[0] == 's':
        b = list(lit_of(tmpl).encode('latin1', 'replace'))
    elif tmpl[0] == 'vec':
        b = [s[1][1] for s in tmpl[1]]
    else:
        return ret(st, top('fmt'))
    if arr[0] != 'vec':
        return ret(st, top('fmt'))
    return ret(st, ('fmt', tuple(template(b)), tuple(s[1] for s in arr[1])))


@model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::new_const', 'core::fmt::Arguments::from_str_nonconst')
def args_str(I, st, args, c, site, k):
    v = I.strip(st, args[0])
    l = lit_of(v)
    return ret(st, ('fmt', (('lit', l),), ()) if l is not None else top('fmt'))


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex')
def arg_new(I, st, args, c, site, k):
    kind = strip_generics(c['path']).rsplit('::new_', 1)[1]
    t = (c.get('targs') or [''])[0]
    return ret(st, ('fmtarg', kind, t, args[0]))


def display(I, st, v, t, site):
    """[(state, pieces)] of <t as Display>::fmt on the value behind v"""
    v0 = I.strip(st, v)
    while I.ty(t)['k'] == 'ref' or I.is_box(t):
        t = I.ty(t).get('inner') or I.ty(t)['args'][0]
    if v0[0] == 's':
        return [(st, v0[1])]
    if v0[0] == 'i':
        return [(st, (('lit', str(v0[1])),))]
    if v0[0] == 'ch':
        return [(st, (('lit', v0[1]),))]
    if v0[0] in ('num', 'len', 'idx'):
        return [(st, (('disp', v0),))]
    if v0[0] == 'b':
        return [(st, (('lit', 'true' if v0[1] else 'false'),))]
    if v0[0] == 'fmt':
        return [(s, p) for s, p in expand_fmt(I, st, v0, site)]
    k = I.ty(t)
    if k['k'] in ('int', 'char', 'bool') or (v0[0] == 'sym' and I.ty(v0[2])['k'] in ('int', 'char', 'bool')):
        return [(st, (('disp', v0),))]
    n = '<%s as core::fmt::Display>::fmt' % t
    if n in I.funcs and I.funcs[n].get('body') and v0[0] != 'top':
        if I.display_opaque and I.display_opaque(I, st, v0, t, n):
            return [(st, (('disp', v0),))]
        root = ('T', I.fid(site[0], site[1], ('fmtr', len(I.stack))), 'fmtr')
        s = st.copy()
        s.mem[root] = ('fmtr', lit(''))
        a = ('ref', ('V', v0), ())
        res = []
        for o in I.exec_fn(s, n, [a, ('ref', root, ())], site[0], ('disp', site[1])):
            if o[0] == 'ret':
                s2 = o[1].copy()
                fv = s2.mem.pop(root, None)
                txt = fv[1] if fv and fv[0] == 'fmtr' else top('text')
                if txt[0] == 's':
                    res.append((s2, txt[1]))
                else:
                    res.append((s2.doubt('display'), (('disp', top('text')),)))
            else:
                res.append((o[1].doubt('display: ' + o[0]), (('disp', top('text')),)))
        return res
    if v0[0] == 'top':
        return [(st.doubt('display of unknown'), (('disp', v0),))]
    return [(st, (('disp', v0),))]


def formatted(I, st, a, opts, args):
    """the text of a known text, character or number with formatting options; None if not known"""
    o = dict(opts or ())
    fl = int.from_bytes(o.get('flags') or (0x60000020).to_bytes(4, 'little'), 'little')
    num = {}
    for n in ('width', 'prec'):
        x = o.get(n)
        if isinstance(x, tuple):
            x = args[int.from_bytes(x[1], 'little')] if int.from_bytes(x[1], 'little') < len(args) else top('')
            x = I.strip(st, x[3]) if x[0] == 'fmtarg' else I.strip(st, x)
            if x[0] != 'i':
                return None
            x = x[1]
        elif x is not None:
            x = int.from_bytes(x, 'little')
        num[n] = x
    v, kind = I.strip(st, a[3]), a[1]
    plus, alt, zero = fl >> 21 & 1, fl >> 23 & 1, fl >> 24 & 1
    align, fill = fl >> 29 & 3, chr(fl & 0x1fffff)
    if v[0] == 'i' and kind in ('display', 'debug', 'lower_hex', 'upper_hex', 'hex'):
        if num['prec'] is not None or fl >> 25 & 3:
            return None
        if kind in ('display', 'debug'):
            t, pre = str(abs(v[1])), ''
        else:
            if v[1] < 0:
                return None
            t, pre = ('%X' if kind == 'upper_hex' else '%x') % v[1], '0x' if alt else ''
        sign = '-' if v[1] < 0 else '+' if plus else ''
        if zero:
            return sign + pre + t.rjust((num['width'] or 0) - len(sign + pre), '0')
        t, dflt = sign + pre + t, 1
    elif kind == 'display' and (v[0] == 's' and lit_of(v) is not None or v[0] == 'ch'):
        t, dflt = lit_of(v) if v[0] == 's' else v[1], 0
        if num['prec'] is not None:
            t = t[:num['prec']]
    else:
        return None
    gap = max(0, (num['width'] or 0) - len(t))
    left = {0: 0, 1: gap, 2: gap // 2, 3: gap if dflt else 0}[align]
    return fill * left + t + fill * (gap - left)


@model('core::fmt::Formatter::width', 'core::fmt::Formatter::precision', 'core::fmt::Formatter::align', 'core::fmt::Formatter::alternate', 'core::fmt::Formatter::sign_plus', 'core::fmt::Formatter::sign_minus',
       'core::fmt::Formatter::sign_aware_zero_pad', 'core::fmt::Formatter::fill')
def fmt_option(I, st, args, c, site, k):
    """printing is without options"""
    n = strip_generics(c['path']).rsplit('::', 1)[1]
    if n in ('width', 'precision', 'align'):
        return ret(st, opt(None))
    return ret(st, ('ch', ' ') if n == 'fill' else ('b', False))


def expand_fmt(I, st, f, site):
    cur = [(st, ())]
    for p in f[1]:
        nxt = []
        for s, acc in cur:
            if p[0] == 'lit':
                nxt.append((s, cat(acc, (p,))))
                continue
            a = f[2][p[1]] if p[1] < len(f[2]) else top('argument')
            if a[0] == 'fmtarg' and a[1] == 'display' and not p[2]:
                for s2, ps in display(I, s, a[3], a[2], (site[0], (site[1], p[1]))):
                    nxt.append((s2, cat(acc, ps)))
            elif a[0] == 'fmtarg' and formatted(I, s, a, p[2], f[2]) is not None:
                nxt.append((s, cat(acc, (('lit', formatted(I, s, a, p[2], f[2])),))))
            elif a[0] == 'fmtarg':
                nxt.append((s, cat(acc, (('fmt', a[1], p[2], I.strip(s, a[3])),))))
            else:
                nxt.append((s.doubt('fmt argument'), cat(acc, (('disp', top('argument')),))))
        cur = nxt
    return cur


@model('alloc::fmt::format')
def fmt_format(I, st, args, c, site, k):
    if args[0][0] != 'fmt':
        return ret(st.doubt('format'), top('format'))
    return [('ret', s, ('s', p)) for s, p in expand_fmt(I, st, args[0], site)]


@model('core::fmt::Formatter::write_fmt', 'core::fmt::Write::write_fmt', 'std::io::Write::write_fmt')
def write_fmt(I, st, args, c, site, k):
    if args[1][0] != 'fmt':
        return ret(st.doubt('write_fmt'), ok(UNIT))
    outs = []
    for s, p in expand_fmt(I, st, args[1], site):
        outs += push_str(I, s, [args[0], ('s', p)], c, site, k)
    return outs


@model('alloc::string::ToString::to_string', 'alloc::string::SpecToString::spec_to_string')
def to_string(I, st, args, c, site, k):
    t = (c.get('dargs') or [''])[0]
    return [('ret', s, ('s', p)) for s, p in display(I, st, args[0], t, site)]


@model('core::fmt::Display::fmt')
def display_fmt(I, st, args, c, site, k):
    f = I.funcs.get(c['name'])
    t = (c.get('dargs') or [''])[0]
    if f and f.get('body') and f.get('local'):
        v0 = I.strip(st, args[0])
        if not (I.display_opaque and I.display_opaque(I, st, v0, t, c['name'])):
            return NotImplemented
    outs = []
    for s, p in display(I, st, args[0], t, site):
        outs += push_str(I, s, [args[1], ('s', p)], {'path': '', 'decl': ''}, site, k)
    return outs


@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def fn_call(I, st, args, c, site, k):
    f = args[0]
    a = args[1][1] if len(args) > 1 and args[1][0] == 'tup' else args[1:]
    fv = I.load(st, f)
    if fv[0] in ('cl', 'fn'):
        outs = I.invoke(st, f, list(a), site)
        return [(o[0], o[1], o[2][0]) if o[0] == 'ret' else o for o in outs]
    # a zero-sized function item: the callee names it
    t = (c.get('dargs') or [''])[0]
    m = I.ty(t)
    if m['k'] == 'fndef':
        n = fnitem_name(t)
        f2 = I.funcs.get(n)
        cc = {'name': n, 'path': m['path'], 'decl': m['path'], 'kind': 'item', 'targs': [], 'dargs': []}
        return I.call(st, cc, list(a), site)
    return NotImplemented


def fnitem_name(t):
    """'fn(A) -> B {name}' -> name"""
    i = t.rfind('{')
    return t[i + 1:-1] if i >= 0 else t


@model('core::intrinsics::assert_inhabited', 'core::intrinsics::assert_zero_valid', 'core::intrinsics::assume', 'core::intrinsics::cold_path')
def intr_nop(I, st, args, c, site, k):
    return ret(st, UNIT)


@model('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def intr_discr(I, st, args, c, site, k):
    return ret(st, I.discr(st, I.strip(st, args[0])))


@model('thiserror::display::AsDisplay::as_display', 'thiserror::aserror::AsDynError::as_dyn_error')
def as_display(I, st, args, c, site, k):
    return ret(st, I.deref1(st, args[0]))
