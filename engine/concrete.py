"""String, character and byte functions on texts that are known, and on written names by cases.

A function of a written name that is not understood symbolically is evaluated for a few concrete names (each under the
assumption that the name is the written one); what remains is doubtful."""
import re, itertools
from interp import *
from interp import wrap, INTBITS
import models
from strings import text, holds, string_conds, leaves, No
from models import ret, opt, ok, err, vec_place, setv, model

CASES = ['x', 'Foo', 'ByStr', 'ByStr20', 'ByStrFoo', 'Foo.Bar', '_this', 'Map', 'Uint256', '0x1A.Foo', 'a_Name1', 'ByStr99999999999999999999999', 'aVeryLongNameThatGoesOnForMoreThanFortyCharactersAndThenSomeMoreOfThemUpTo100CharactersOrEvenABitMore1']
FEW = ['Foo', 'ByStr20', 'x', '0x1A', 'Int32']

WHITE = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
ASC = lambda f: lambda c: ord(c) < 128 and f(c)
CHAR = {
    'is_whitespace': lambda c: c in WHITE, 'is_alphanumeric': lambda c: c.isalpha() or c.isnumeric(), 'is_alphabetic': str.isalpha, 'is_numeric': str.isnumeric,
    'is_uppercase': str.isupper, 'is_lowercase': str.islower, 'is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160, 'is_ascii': lambda c: ord(c) < 128,
    'is_ascii_digit': ASC(str.isdigit), 'is_ascii_alphabetic': ASC(str.isalpha), 'is_ascii_alphanumeric': ASC(str.isalnum), 'is_ascii_uppercase': ASC(str.isupper),
    'is_ascii_lowercase': ASC(str.islower), 'is_ascii_hexdigit': ASC(lambda c: c in '0123456789abcdefABCDEF'), 'is_ascii_punctuation': ASC(lambda c: 33 <= ord(c) < 127 and not c.isalnum()),
    'is_ascii_whitespace': lambda c: c in '\t\n\x0c\r ', 'is_ascii_control': ASC(lambda c: ord(c) < 32 or ord(c) == 127), 'is_ascii_graphic': ASC(lambda c: 33 <= ord(c) < 127)}


def known(st, v):
    l = lit_of(v)
    return l if l is not None else st.facts.get(('seq', v[1])) if v[0] == 's' else None


def char_of(I, st, v):
    v = I.strip(st, v)
    return v[1] if v[0] == 'ch' and isinstance(v[1], str) else chr(v[1]) if v[0] == 'ch' else None


def charpred(name, f):
    base = ['core::char::methods::' + name, 'core::num::' + name, 'core::ascii::' + name, 'core::char::' + name]

    def m(I, st, args, c, site, k):
        v = I.strip(st, args[0])
        ch = char_of(I, st, v)
        if ch is None and v[0] == 'i' and 0 <= v[1] < 256:
            if v[1] >= 128:
                return ret(st, ('b', False))
            ch = chr(v[1])
        if ch is None:
            return NotImplemented
        return ret(st, ('b', bool(f(ch))))
    for b in base:
        models.MODELS.setdefault(b, m)


for n_, f_ in CHAR.items():
    charpred(n_, f_)


@model('core::char::methods::to_digit', 'core::char::methods::is_digit')
def to_digit(I, st, args, c, site, k):
    ch, r = char_of(I, st, args[0]), args[1]
    if ch is None or r[0] != 'i':
        return NotImplemented
    try:
        d = int(ch, r[1]) if ord(ch) < 128 else None
    except ValueError:
        d = None
    if c['path'].endswith('is_digit'):
        return ret(st, ('b', d is not None))
    return ret(st, opt(None if d is None else ('i', d)))


@model('core::char::methods::to_ascii_lowercase', 'core::char::methods::to_ascii_uppercase')
def to_ascii(I, st, args, c, site, k):
    ch = char_of(I, st, args[0])
    if ch is None:
        return NotImplemented
    return ret(st, ('ch', (ch.lower() if 'lower' in c['path'] else ch.upper()) if ord(ch) < 128 else ch))


@model('core::char::methods::len_utf8')
def len_utf8(I, st, args, c, site, k):
    ch = char_of(I, st, args[0])
    return NotImplemented if ch is None else ret(st, ('i', len(ch.encode('utf8'))))


@model('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max', 'core::cmp::impls::min', 'core::cmp::impls::max', 'core::cmp::Ord::clamp', 'core::cmp::impls::clamp')
def min_max(I, st, args, c, site, k):
    vs = [I.strip(st, a) for a in args]
    if any(v[0] != 'i' for v in vs):
        return NotImplemented
    n = strip_generics(c['path']).rsplit('::', 1)[1]
    x = [v[1] for v in vs]
    if n == 'clamp':
        return ret(st, ('i', max(x[1], min(x[0], x[2])))) if x[1] <= x[2] else [('panic', st, 'here')]
    return ret(st, ('i', min(x) if n == 'min' else max(x)))


@model('core::num::saturating_sub', 'core::num::saturating_add', 'core::num::checked_sub', 'core::num::checked_add', 'core::num::wrapping_add', 'core::num::wrapping_sub')
def num_op(I, st, args, c, site, k):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    m = re.search(r'<impl ([iu]\d+|[iu]size)>', c['path']) or re.search(r'<impl ([iu]\d+|[iu]size)>', c['name'])
    if a[0] != 'i' or b[0] != 'i':
        return NotImplemented
    t = m.group(1) if m else 'usize'
    n = strip_generics(c['path']).rsplit('::', 1)[1]
    v = a[1] - b[1] if n.endswith('sub') else a[1] + b[1]
    if wrap(v, t) == v:
        return ret(st, opt(('i', v)) if n.startswith('checked') else ('i', v))
    if n.startswith('checked'):
        return ret(st, opt(None))
    if n.startswith('wrapping'):
        return ret(st, ('i', wrap(v, t)))
    bits = INTBITS.get(t, 64)
    lo, hi = (0, (1 << bits) - 1) if t[0] == 'u' else (-(1 << bits - 1), (1 << bits - 1) - 1)
    return ret(st, ('i', lo if v < lo else hi))


# ------------------------------------------------------------------ texts
def text_model(*names):
    """f(I, st, text, args, c, site): outcomes for a known text"""
    def deco(f):
        for n in names:
            old = models.MODELS.get(n)

            def m(I, st, args, c, site, k, old=old):
                v = I.strip(st, args[0]) if args else None
                if v is None or v[0] != 's':
                    return old(I, st, args, c, site, k) if old else NotImplemented
                l = known(st, v)
                if l is not None:
                    r = f(I, st, l, args, c, site)
                    if r is not NotImplemented:
                        return r
                    return old(I, st, args, c, site, k) if old else NotImplemented
                if old:
                    return old(I, st, args, c, site, k)
                r = by_cases(I, st, v, args, c, site, f)
                return NotImplemented if r is None else r
            models.MODELS[n] = m
        return f
    return deco


def by_cases(I, st, v, args, c, site, f):
    ls = sorted(leaves(v[1], set()), key=repr)
    if not 1 <= len(ls) <= 2 or any(p[0] not in ('sp', 'lit', 'strip', 'stripend', 'fun') for p in v[1]):
        return None
    outs = []
    for ws in itertools.product(*([CASES] if len(ls) == 1 else [FEW, FEW])):
        asg = dict(zip(ls, ws))
        try:
            t = text(v[1], asg)
        except (No, ValueError, TypeError):
            continue
        s = st
        for l, w in asg.items():
            s = next((s2 for s2, b in I.assume(s, ('streq', (l,), w)) if b), None)
            if s is None:
                break
        if s is None or any(holds(k, x, asg) is False for k, x in string_conds(s.facts)):
            continue
        r = f(I, s, t, args, c, site)
        if r is NotImplemented:
            return None
        outs += r
    n = strip_generics(c['path'])
    outs.append(('ret', st.doubt(n + ' of a name'), top('result of ' + n)))
    return outs


def chars_it(s):
    return ('it', 'list', tuple(('el', ('ch', x)) for x in s), 'own')


def blen(s):
    return len(s.encode('utf8'))


@text_model('core::str::chars')
def t_chars(I, st, s, args, c, site):
    return ret(st, chars_it(s))


@text_model('core::str::char_indices')
def t_char_indices(I, st, s, args, c, site):
    out, p = [], 0
    for x in s:
        out.append(('el', ('tup', (('i', p), ('ch', x)))))
        p += blen(x)
    return ret(st, ('it', 'list', tuple(out), 'own'))


@text_model('core::str::bytes')
def t_bytes(I, st, s, args, c, site):
    return ret(st, ('it', 'list', tuple(('el', ('i', b)) for b in s.encode('utf8')), 'own'))


@text_model('core::str::as_bytes', 'alloc::string::String::as_bytes', 'alloc::string::String::into_bytes', 'alloc::str::into_bytes')
def t_as_bytes(I, st, s, args, c, site):
    v = ('vec', tuple(('el', ('i', b)) for b in s.encode('utf8')))
    return ret(st, v if 'into' in c['path'] else ('ref', ('V', v), ()))


@text_model('core::str::lines', 'core::str::split_whitespace', 'core::str::split_ascii_whitespace')
def t_lines(I, st, s, args, c, site):
    if 'lines' in c['path']:
        ps = s.split('\n')
        ps = [p[:-1] if p.endswith('\r') else p for p in (ps[:-1] if ps[-1] == '' else ps)]
    else:
        ps = ''.join(' ' if x in WHITE else x for x in s).split()
    return ret(st, ('it', 'list', tuple(('el', lit(p)) for p in ps), 'own'))


def at(s, n):
    """the index in characters of byte offset n, None if it is not a boundary"""
    b = s.encode('utf8')
    if n < 0 or n > len(b):
        return None
    try:
        return len(b[:n].decode('utf8'))
    except UnicodeDecodeError:
        return None


def bounds(I, st, r, n):
    """(lo, hi) in bytes of a range value over a text of n bytes; None if not known"""
    r = I.strip(st, r)
    if r[0] != 'adt':
        return None
    t = (I.ty(r[1]).get('path') or r[1]).rsplit('::', 1)[-1].split('<')[0]
    f = r[3]
    num = lambda v: v[1] if v[0] == 'i' else None
    lo, hi = 0, n
    if t in ('Range', 'RangeFrom', 'RangeInclusive'):
        lo = num(f[0])
    if t in ('Range', 'RangeInclusive'):
        hi = num(f[1])
    if t in ('RangeTo', 'RangeToInclusive'):
        hi = num(f[0])
    if t in ('RangeInclusive', 'RangeToInclusive') and hi is not None:
        hi += 1
    if lo is None or hi is None or t not in ('Range', 'RangeFrom', 'RangeInclusive', 'RangeTo', 'RangeToInclusive', 'RangeFull'):
        return None
    return lo, hi


def cut(s, lo, hi):
    a, b = at(s, lo), at(s, hi)
    return None if a is None or b is None or a > b else s[a:b]


@text_model('core::str::traits::index', 'core::ops::index::Index::index', 'core::str::get', 'alloc::string::index')
def t_index(I, st, s, args, c, site):
    r = bounds(I, st, args[1], blen(s))
    if r is None:
        return NotImplemented
    x = cut(s, *r)
    if c['path'].endswith('::get') or strip_generics(c['path']).endswith('::get'):
        return ret(st, opt(None if x is None else lit(x)))
    return ret(st, lit(x)) if x is not None else [('panic', st, 'here')]


_index = models.MODELS['core::ops::index::Index::index']


def index_prefix(I, st, args, c, site, k):
    """what follows a prefix that is known to be there"""
    v = I.strip(st, args[0])
    if v[0] == 's' and known(st, v) is None:
        r = I.strip(st, args[1])
        get = strip_generics(c['path']).endswith('::get')
        if r[0] == 'adt' and (I.ty(r[1]).get('path') or '') == 'core::ops::range::RangeFrom' and r[3][0][0] == 'i':
            n = r[3][0][1]
            for (kk, b) in st.facts.items():
                if kk[0] == 'pre' and kk[1] == v[1] and b and blen(kk[2]) == n:
                    x = ('s', (('strip', v[1], kk[2]),))
                    return ret(st, opt(x) if get else x)
        o = by_cases(I, st, v, args, c, site, t_index)
        if o is not None:
            return o
        if not get:
            return NotImplemented
    return _index(I, st, args, c, site, k)


for n_ in ('core::str::traits::index', 'core::ops::index::Index::index', 'core::str::get', 'alloc::string::index'):
    models.MODELS[n_] = index_prefix


@text_model('core::str::is_char_boundary')
def t_boundary(I, st, s, args, c, site):
    return ret(st, ('b', at(s, args[1][1]) is not None)) if args[1][0] == 'i' else NotImplemented


@text_model('core::str::split_at', 'core::str::split_at_checked')
def t_split_at(I, st, s, args, c, site):
    if args[1][0] != 'i':
        return NotImplemented
    p = at(s, args[1][1])
    ck = 'checked' in c['path']
    if p is None:
        return ret(st, opt(None)) if ck else [('panic', st, 'here')]
    v = ('tup', (lit(s[:p]), lit(s[p:])))
    return ret(st, opt(v) if ck else v)


@text_model('core::str::is_ascii')
def t_is_ascii(I, st, s, args, c, site):
    return ret(st, ('b', all(ord(x) < 128 for x in s)))


@text_model('core::str::eq_ignore_ascii_case')
def t_eq_ic(I, st, s, args, c, site):
    v = I.strip(st, args[1])
    o = known(st, v) if v[0] == 's' else None
    if o is None:
        return NotImplemented
    low = lambda t: ''.join(x.lower() if ord(x) < 128 else x for x in t)
    return ret(st, ('b', low(s) == low(o)))


def matches(I, st, s, pat, site):
    """[(state, [(start, end)])] in characters of the matches of a pattern, left to right; None if not understood"""
    v = I.strip(st, pat)
    n = known(st, v) if v[0] == 's' else char_of(I, st, v)
    if n is not None:
        if n == '':
            return None
        out, p = [], s.find(n)
        while p >= 0:
            out.append((p, p + len(n)))
            p = s.find(n, p + len(n))
        return [(st, out)]
    sets = None
    if v[0] == 'vec' and all(e[0] == 'el' and I.strip(st, e[1])[0] == 'ch' for e in v[1]):
        sets = {I.strip(st, e[1])[1] for e in v[1]}
        return [(st, [(i, i + 1) for i, x in enumerate(s) if x in sets])]
    if v[0] not in ('cl', 'fn') or len(s) > 300:
        return None
    cur = [(st, [])]
    memo = {}
    for i, x in enumerate(s):
        nxt = []
        for s0, ms in cur:
            for o in I.invoke(s0, v, [('ch', x)], (site, 'pattern', i)):
                if o[0] != 'ret':
                    return None
                for s2, b in I.branch(o[1], o[2][0]):
                    nxt.append((s2, ms + [(i, i + 1)] if b else ms))
        cur = nxt
        if len(cur) > 8:
            return None
    return cur


@text_model('core::str::find', 'core::str::rfind')
def t_find(I, st, s, args, c, site):
    ms = matches(I, st, s, args[1], site)
    if ms is None:
        return NotImplemented
    i = -1 if strip_generics(c['path']).endswith('rfind') else 0
    return [('ret', s2, opt(('i', blen(s[:m[i][0]])) if m else None)) for s2, m in ms]


@text_model('core::str::contains', 'core::str::starts_with', 'core::str::ends_with')
def t_contains(I, st, s, args, c, site):
    v = I.strip(st, args[1])
    if v[0] in ('s', 'ch'):
        return NotImplemented
    ms = matches(I, st, s, args[1], site)
    if ms is None:
        return NotImplemented
    n = strip_generics(c['path']).rsplit('::', 1)[1]
    return [('ret', s2, ('b', {'contains': bool(m), 'starts_with': bool(m) and m[0][0] == 0, 'ends_with': bool(m) and m[-1][1] == len(s)}[n])) for s2, m in ms]


@text_model('core::str::matches', 'core::str::match_indices', 'core::str::rmatches')
def t_matches(I, st, s, args, c, site):
    ms = matches(I, st, s, args[1], site)
    if ms is None:
        return NotImplemented
    out = []
    for s2, m in ms:
        es = [lit(s[a:b]) if 'indices' not in c['path'] else ('tup', (('i', blen(s[:a])), lit(s[a:b]))) for a, b in m]
        if 'rmatches' in c['path']:
            es = es[::-1]
        out.append(('ret', s2, ('it', 'list', tuple(('el', e) for e in es), 'own')))
    return out


@text_model('core::str::split', 'core::str::rsplit', 'core::str::split_terminator', 'core::str::split_inclusive')
def t_split(I, st, s, args, c, site):
    ms = matches(I, st, s, args[1], site)
    if ms is None:
        return NotImplemented
    n = strip_generics(c['path']).rsplit('::', 1)[1]
    out = []
    for s2, m in ms:
        ps, p = [], 0
        for a, b in m:
            ps.append(s[p:b if n == 'split_inclusive' else a])
            p = b
        if s[p:] or n in ('split', 'rsplit'):
            ps.append(s[p:])
        if n == 'rsplit':
            ps = ps[::-1]
        out.append(('ret', s2, ('it', 'list', tuple(('el', lit(x)) for x in ps), 'own')))
    return out


@text_model('core::str::trim_matches', 'core::str::trim_start_matches', 'core::str::trim_end_matches', 'core::str::trim_left_matches', 'core::str::trim_right_matches')
def t_trim_matches(I, st, s, args, c, site):
    v = I.strip(st, args[1])
    if v[0] in ('s', 'ch'):
        return NotImplemented
    ms = matches(I, st, s, args[1], site)
    if ms is None:
        return NotImplemented
    n = strip_generics(c['path']).rsplit('::', 1)[1]
    out = []
    for s2, m in ms:
        hit = {a for a, b in m}
        lo, hi = 0, len(s)
        if n in ('trim_matches', 'trim_start_matches', 'trim_left_matches'):
            while lo < hi and lo in hit:
                lo += 1
        if n in ('trim_matches', 'trim_end_matches', 'trim_right_matches'):
            while hi > lo and hi - 1 in hit:
                hi -= 1
        out.append(('ret', s2, lit(s[lo:hi])))
    return out


# ------------------------------------------------------------------ changing a text in place
def place_of(I, st, a):
    if a[0] != 'ref':
        return None
    v = I.read(st, a[1], a[2])
    while v[0] == 'ref':
        a = v
        v = I.read(st, a[1], a[2])
    return (a[1], a[2]) if v[0] == 's' and a[1][0] != 'V' else None


def changed(I, st, p, s, v=UNIT):
    return ('ret', setv(I, st, p, lit(s)), v)


@text_model('alloc::string::String::truncate', 'alloc::string::String::split_off', 'alloc::string::String::remove', 'alloc::string::String::pop', 'alloc::string::String::clear',
            'alloc::string::String::insert', 'alloc::string::String::insert_str', 'alloc::string::String::retain', 'alloc::string::String::drain', 'alloc::string::String::replace_range')
def t_change(I, st, s, args, c, site):
    p = place_of(I, st, args[0])
    if p is None:
        return NotImplemented
    n = strip_generics(c['path']).rsplit('::', 1)[1]
    if n == 'clear':
        return [changed(I, st, p, '')]
    if n == 'pop':
        return [changed(I, st, p, s[:-1], opt(('ch', s[-1]) if s else None))]
    if n == 'retain':
        cur = [(st, '')]
        for i, x in enumerate(s):
            nxt = []
            for s0, t in cur:
                for o in I.invoke(s0, args[1], [('ch', x)], (site, 'retain', i)):
                    if o[0] != 'ret':
                        return NotImplemented
                    for s2, b in I.branch(o[1], o[2][0]):
                        nxt.append((s2, t + x if b else t))
            cur = nxt
            if len(cur) > 8:
                return NotImplemented
        return [changed(I, s2, p, t) for s2, t in cur]
    if n in ('drain', 'replace_range'):
        r = bounds(I, st, args[1], blen(s))
        if r is None:
            return NotImplemented
        x = cut(s, *r)
        if x is None:
            return [('panic', st, 'here')]
        a, b = at(s, r[0]), at(s, r[1])
        if n == 'drain':
            return [changed(I, st, p, s[:a] + s[b:], chars_it(x))]
        w = I.strip(st, args[2])
        w = known(st, w) if w[0] == 's' else None
        return NotImplemented if w is None else [changed(I, st, p, s[:a] + w + s[b:])]
    if args[1][0] != 'i':
        return NotImplemented
    i = at(s, args[1][1])
    if n == 'truncate':
        if args[1][1] >= blen(s):
            return ret(st, UNIT)
        return [changed(I, st, p, s[:i])] if i is not None else [('panic', st, 'here')]
    if i is None or (n == 'remove' and i >= len(s)):
        return [('panic', st, 'here')]
    if n == 'split_off':
        return [changed(I, st, p, s[:i], lit(s[i:]))]
    if n == 'remove':
        return [changed(I, st, p, s[:i] + s[i + 1:], ('ch', s[i]))]
    w = I.strip(st, args[2])
    w = known(st, w) if w[0] == 's' else char_of(I, st, w)
    return NotImplemented if w is None else [changed(I, st, p, s[:i] + w + s[i:])]


# ------------------------------------------------------------------ Debug texts
ESC = {'\n': '\\n', '\t': '\\t', '\r': '\\r', '\\': '\\\\', '\0': '\\0'}


def quote(s, q):
    out = ''
    for x in s:
        if x in ESC:
            out += ESC[x]
        elif x == q:
            out += '\\' + x
        elif x.isprintable():
            out += x
        else:
            out += '\\u{%x}' % ord(x)
    return q + out + q


def derived_debug(I, t):
    n = '<%s as core::fmt::Debug>::fmt' % t
    f = I.funcs.get(n)
    return f is None or f.get('derived') or not f.get('local')


def debug(I, st, v):
    """the text of {:?} for a value that is known; None otherwise"""
    v = I.strip(st, v)
    if v[0] == 's':
        l = known(st, v)
        return None if l is None else quote(l, '"')
    if v[0] == 'ch':
        return quote(char_of(I, st, v), "'")
    if v[0] == 'i':
        return str(v[1])
    if v[0] == 'b':
        return 'true' if v[1] else 'false'
    if v[0] == 'box':
        return debug(I, st, v[1])
    if v[0] == 'tup':
        ps = [debug(I, st, x) for x in v[1]]
        return None if None in ps else '(' + ', '.join(ps) + (',)' if len(ps) == 1 else ')')
    if v[0] == 'vec':
        if any(e[0] != 'el' for e in v[1]):
            return None
        ps = [debug(I, st, e[1]) for e in v[1]]
        return None if None in ps else '[' + ', '.join(ps) + ']'
    if v[0] == 'adt' and I.ty(v[1]).get('variants') and derived_debug(I, v[1]):
        vd = I.ty(v[1])['variants'][v[2]]
        ps = [debug(I, st, x) for x in v[3]]
        if None in ps:
            return None
        ns = [f['name'] for f in vd['fields']]
        if not ns:
            return vd['name']
        if ns[0].isdigit():
            return vd['name'] + '(' + ', '.join(ps) + ')'
        return vd['name'] + ' { ' + ', '.join('%s: %s' % x for x in zip(ns, ps)) + ' }'
    return None


_expand = models.expand_fmt


def expand_fmt(I, st, f, site):
    if f[0] == 'fmt':
        args = []
        for i, a in enumerate(f[2]):
            if a[0] == 'fmtarg' and a[1] == 'debug' and not any(p[0] != 'lit' and p[1] == i and p[2] for p in f[1]):
                d = debug(I, st, a[3])
                if d is not None:
                    a = ('fmtarg', 'display', 'str', ('ref', ('V', lit(d)), ()))
            args.append(a)
        f = (f[0], f[1], tuple(args))
    return _expand(I, st, f, site)


models.expand_fmt = expand_fmt
