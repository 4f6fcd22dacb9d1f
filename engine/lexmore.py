"""Further library functions on texts of cells (each character of the text is there; none is a run of unknown length):
searching from either end, splitting, trimming, bytes, tables of keywords, lazily made statics."""
from lexdom import *
from lexdom import LM, model, itmodel, matcher, is_ci, source_ci, truth, slice_txt
from interp import Interp, Budget, wrap
import lexdom, models
from models import ret, opt, ok, err, lit_of, as_it, vec_place, setv

U8 = {'u8', 'i8'}


def pos(I, st, v, b):
    return I.norm(st, sub(I.ghost(st, 'pos', b), I.ghost(st, 'pos', v[1])))


def txt_of(I, st, a):
    v = I.strip(st, a)
    return v if v[0] == 'txt' else None


def pattern(I, st, p):
    """('lit', text) | ('set', matcher) | None"""
    p = I.strip(st, p)
    l = lit_of(p) if p[0] == 's' else None
    if l is not None:
        return ('lit', l) if l else None
    m = matcher(I, st, p)
    return ('set', m) if m else None


def here(I, st, b, end, p):
    """does the pattern occur at boundary b: [(state, boundary behind it | None)]"""
    if p[0] == 'set':
        out = []
        for s, cid, nb in I.front(st, b, end):
            if cid is None:
                out.append((s, None))
            else:
                out += [(s2, nb if x else None) for s2, x in p[1](s, cid)]
        return out
    work, out = [(st, b, 0)], []
    while work:
        s, b, n = work.pop()
        if n == len(p[1]):
            out.append((s, b))
            continue
        for s2, cid, nb in I.front(s, b, end):
            if cid is None:
                out.append((s2, None))
                continue
            for s3, e in I.branch(s2, I.chcmp('Eq', cid, p[1][n], False)):
                if e:
                    work.append((s3, nb, n + 1))
                else:
                    out.append((s3, None))
    return out


def tick(I):
    I.steps += 1
    if I.steps > I.budget or I.deadline and not I.steps & 255 and lexdom._time.time() > I.deadline:
        raise Budget('analysis budget exceeded in a search')


def occs(I, st, v, p, limit=None):
    """all non-overlapping occurrences: [(state, ((boundary, boundary behind), ..))]"""
    out, work = [], [(st, v[1], ())]
    while work:
        tick(I)
        s, b, acc = work.pop()
        if limit is not None and len(acc) == limit:
            out.append((s, acc))
            continue
        for s2, e in here(I, s, b, v[2], p):
            if e is not None:
                work.append((s2, e, acc + ((b, e),)))
                continue
            for s3, cid, nb in I.front(s2, b, v[2]):
                if cid is None:
                    out.append((s3, acc))
                else:
                    work.append((s3, nb, acc))
    return out


def last(I, st, v, p):
    """the last occurrence: [(state, (boundary, boundary behind) | None)]"""
    out, work = [], [(st, v[2])]
    while work:
        tick(I)
        s, b = work.pop()
        for s2, e in here(I, s, b, v[2], p):
            if e is not None:
                out.append((s2, (b, e)))
            elif I.canonbid(s2, b) == I.canonbid(s2, v[1]):
                out.append((s2, None))
            else:
                for s3, cid, nb in I.back(s2, b):
                    work.append((s3, nb))
    return out


def lst(els):
    return ('it', 'list', tuple(('el', e) for e in els), 'own')


@model('core::str::rfind', 'core::str::rsplit_once')
def rfind(I, st, args, c, site):
    v, p = txt_of(I, st, args[0]), pattern(I, st, args[1])
    if v is None or p is None:
        return NotImplemented
    find = c['path'].endswith('rfind') or '::rfind' in c['path']
    out = []
    for s, o in last(I, st, v, p):
        out.append(('ret', s, opt(None) if o is None else opt(pos(I, s, v, o[0])) if find else opt(('tup', (('txt', v[1], o[0]), ('txt', o[1], v[2]))))))
    return out


@model('core::str::matches', 'core::str::rmatches', 'core::str::match_indices', 'core::str::rmatch_indices')
def matches(I, st, args, c, site):
    v, p = txt_of(I, st, args[0]), pattern(I, st, args[1])
    if v is None or p is None:
        return NotImplemented
    k = strip_generics(c['path']).rsplit('::', 1)[1]
    out = []
    for s, os_ in occs(I, st, v, p):
        els = [('txt', a, b) for a, b in os_]
        if k.endswith('indices'):
            els = [('tup', (pos(I, s, v, e[1]), e)) for e in els]
        out.append(('ret', s, lst(els[::-1] if k[0] == 'r' else els)))
    return out


def pieces(v, os_):
    cur, out = v[1], []
    for a, b in os_:
        out.append(('txt', cur, a))
        cur = b
    return out + [('txt', cur, v[2])]


@model('core::str::split', 'core::str::rsplit', 'core::str::split_terminator', 'core::str::split_inclusive', 'core::str::splitn', 'core::str::lines', 'core::str::split_whitespace',
       'core::str::split_ascii_whitespace')
def split(I, st, args, c, site):
    v = txt_of(I, st, args[0])
    if v is None:
        return NotImplemented
    k = strip_generics(c['path']).rsplit('::', 1)[1]
    limit = None
    if k == 'lines':
        p = ('lit', '\n')
    elif k == 'split_whitespace':
        p = ('set', lambda s, cid: I.split(s, cid, WS))
    elif k == 'split_ascii_whitespace':
        p = ('set', lambda s, cid: I.split(s, cid, PRED['is_ascii_whitespace']))
    elif k == 'splitn':
        p = pattern(I, st, args[2])
        if args[1][0] != 'i' or args[1][1] < 1:
            return NotImplemented
        limit = args[1][1] - 1
    else:
        p = pattern(I, st, args[1])
    if p is None:
        return NotImplemented
    out = []
    for s, os_ in occs(I, st, v, p, limit):
        ps = pieces(v, os_)
        if k in ('split_inclusive', 'lines', 'split_terminator') and os_:
            same = I.canonbid(s, ps[-1][1]) == I.canonbid(s, ps[-1][2])
            if same:
                ps = ps[:-1]
        elif k in ('lines', 'split_terminator', 'split_inclusive'):
            if I.canonbid(s, v[1]) == I.canonbid(s, v[2]):
                ps = []
        if k == 'split_inclusive':
            cur, els = v[1], []
            for (a, b), _ in zip(os_, ps):
                els.append(('txt', cur, b))
                cur = b
            ps = els + ps[len(els):]
        if k in ('split_whitespace', 'split_ascii_whitespace'):
            ps = [x for x in ps if I.canonbid(s, x[1]) != I.canonbid(s, x[2])]
        if k == 'rsplit':
            ps = ps[::-1]
        if k == 'lines':
            # a carriage return before the line break does not belong to the line
            work = [(s, ())]
            for n, x in enumerate(ps):
                nxt = []
                for s1, acc in work:
                    if n >= len(os_) or I.canonbid(s1, x[1]) == I.canonbid(s1, x[2]):
                        nxt.append((s1, acc + (x,)))
                        continue
                    for s2, cid, nb in I.back(s1, x[2]):
                        for s3, cr in I.split(s2, cid, chars('\r')):
                            nxt.append((s3, acc + ((('txt', x[1], nb) if cr else x),)))
                work = nxt
            out += [('ret', s1, lst(acc)) for s1, acc in work]
            continue
        out.append(('ret', s, lst(ps)))
    return out


@model('core::str::trim_end', 'core::str::trim_end_matches', 'core::str::trim', 'core::str::trim_matches', 'core::str::trim_ascii_end', 'core::str::trim_ascii', 'core::str::trim_ascii_start')
def trim(I, st, args, c, site):
    v = txt_of(I, st, args[0])
    if v is None:
        return NotImplemented
    k = strip_generics(c['path']).rsplit('::', 1)[1]
    mask = PRED['is_ascii_whitespace'] if 'ascii' in k else WS
    p = pattern(I, st, args[1]) if len(args) > 1 else ('set', lambda s, cid: I.split(s, cid, mask))
    if p is None or p[0] == 'lit' and len(p[1]) != 1:
        return NotImplemented
    m = p[1] if p[0] == 'set' else matcher(I, st, ('ch', p[1]))
    out, work = [], [(st, v[1], v[2], 'end' not in k)]
    while work:
        tick(I)
        s, a, b, left = work.pop()
        if left:
            for s2, cid, nb in I.front(s, a, b):
                if cid is None:
                    out.append(('ret', s2, ('txt', b, b)))
                    continue
                for s3, x in m(s2, cid):
                    if x:
                        work.append((s3, nb, b, True))
                    elif 'start' in k:
                        out.append(('ret', s3, ('txt', a, b)))
                    else:
                        work.append((s3, a, b, False))
            continue
        if I.canonbid(s, a) == I.canonbid(s, b):
            out.append(('ret', s, ('txt', a, b)))
            continue
        for s2, cid, nb in I.back(s, b):
            for s3, x in m(s2, cid):
                if x:
                    work.append((s3, a, nb, False))
                else:
                    out.append(('ret', s3, ('txt', a, b)))
    return out


_ends = LM['core::str::ends_with']


@model('core::str::ends_with', 'core::str::strip_suffix')
def ends_with(I, st, args, c, site):
    v = txt_of(I, st, args[0])
    p = I.strip(st, args[1])
    l = lit_of(p) if p[0] == 's' else None
    if v is None or l is None or len(l) < 2:
        return _ends(I, st, args, c, site)
    strip = strip_generics(c['path']).endswith('strip_suffix')
    no = opt(None) if strip else ('b', False)
    out, work = [], [(st, v[2], len(l))]
    while work:
        s, b, n = work.pop()
        if n == 0:
            out.append(('ret', s, opt(('txt', v[1], b)) if strip else ('b', True)))
            continue
        if I.canonbid(s, b) == I.canonbid(s, v[1]):
            out.append(('ret', s, no))
            continue
        for s2, cid, nb in I.back(s, b):
            for s3, e in I.branch(s2, I.chcmp('Eq', cid, l[n - 1], False)):
                if e:
                    work.append((s3, nb, n - 1))
                else:
                    out.append(('ret', s3, no))
    return out


@model('core::str::is_ascii')
def str_is_ascii(I, st, args, c, site):
    v = txt_of(I, st, args[0])
    if v is None:
        return NotImplemented
    return [('ret', s, ('b', not o)) for s, o in occs(I, st, v, ('set', lambda s, cid: I.split(s, cid, ALL & ~ASCII)), 1)]


# ------------------------------------------------------------------ iterators over characters that need their elements
def elements(I, st, it):
    """a character iterator with its elements listed (texts of cells only): ('it', 'list', ..) or None"""
    if it[1] == 'ci':
        kind, cur, end, base = it[2:]
        if cur[0] == 'lost':
            return None
        els, b = [], cur
        while True:
            r = I.front(st, b, end)
            if len(r) != 1 or r[0][0] is not st:
                return None
            _, cid, nb = r[0]
            if cid is None:
                return lst(els)
            v = ('chr', cid)
            if kind == 'idx':
                v = ('tup', (I.norm(st, sub(I.ghost(st, 'pos', b), I.ghost(st, 'pos', base))), v))
            els.append(v)
            b = nb
    if len(it) > 2 and isinstance(it[2], tuple) and it[2] and it[2][0] == 'it':
        x = elements(I, st, it[2])
        return None if x is None else it[:2] + (x,) + it[3:]
    if it[1] == 'list':
        return it
    return None


@itmodel('rev')
def rev(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    if not source_ci(it):
        return NotImplemented
    if place is not None:
        return NotImplemented
    e = elements(I, st, it)
    return NotImplemented if e is None else ret(st, models.rev_it(e))


@itmodel('take')
def take(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    if not source_ci(it) or not isnum(args[1]):
        return NotImplemented
    n = I.norm(st, args[1])
    if is_ci(it) and place is None:
        return [('ret', s, it if b[0] == 'end' else it[:4] + (b,) + it[5:]) for s, b in I.seek(st, it[3], n, 'cpos', it[4]) if b[0] != 'lost'] or NotImplemented
    if n[0] != 'i':
        return NotImplemented
    if place is not None:
        it = ('it', 'byref', args[0])
    return ret(st, ('it', 'takeN', it, n[1]))


@itmodel('step_by')
def step_by(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    if not source_ci(it) or place is not None or args[1][0] != 'i' or args[1][1] < 1:
        return NotImplemented
    e = elements(I, st, it)
    if e is None or e[1] != 'list':
        return NotImplemented
    return ret(st, e[:2] + (e[2][::args[1][1]],) + e[3:])


@model('core::iter::sources::from_fn::from_fn')
def from_fn(I, st, args, c, site):
    return ret(st, ('it', 'from_fn', args[0]))


@model('core::iter::sources::successors::successors')
def successors(I, st, args, c, site):
    return ret(st, ('it', 'succ', args[0], args[1]))


@itmodel('next_back')
def next_back(I, st, args, c, site):
    return back_model(I, st, args)


@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def next_back2(I, st, args, c, site):
    return back_model(I, st, args)


def back_model(I, st, args):
    it, place = as_it(I, st, args[0])
    if not is_ci(it) or place is None or it[3][0] == 'lost':
        return NotImplemented
    kind, cur, end, base = it[2:]
    if I.canonbid(st, cur) == I.canonbid(st, end):
        return ret(st, opt(None))
    out = []
    for s, cid, nb in I.back(st, end):
        s = s.copy()
        I.write(s, place[0], place[1], ('it', 'ci', kind, cur, nb, base))
        v = ('chr', cid)
        if kind == 'idx':
            v = ('tup', (I.norm(s, sub(I.ghost(s, 'pos', nb), I.ghost(s, 'pos', base))), v))
        out.append(('ret', s, opt(v)))
    return out


_pull = LexInterp.pull


def pull(self, st, it, k):
    kind = it[1]
    if kind == 'from_fn':
        def aft(s, v, f):
            out = []
            for s2, some, x in self.opt_cases(s, v):
                out += k(s2, ('it', 'from_fn', f), x if some else None)
            return out
        tick(self)
        return self.bind(self.invoke(st, it[2], [], 'from_fn'), aft)
    if kind == 'succ':
        out = []
        for s, some, x in self.opt_cases(st, it[2]):
            if not some:
                out += k(s, it, None)
                continue
            tick(self)
            out += self.bind(self.invoke(s, it[3], [self.tmpref(s, x)], 'successors'), lambda s2, v, f, x=x: k(s2, ('it', 'succ', v, f), x))
        return out
    return _pull(self, st, it, k)


LexInterp.pull = pull


# ------------------------------------------------------------------ bytes
def bytelist(I, st, v):
    """[(state, bytes)]: a byte of an ASCII character is the character; others are opaque but not ASCII"""
    work, out = [(st, v[1], ())], []
    while work:
        tick(I)
        s, b, acc = work.pop()
        for s2, cid, nb in I.front(s, b, v[2]):
            if cid is None:
                out.append((s2, acc))
                continue
            for n in widths(I.cls(s2, cid)):
                s3 = I.refine(s2, cid, WIDTH[n])
                if s3 is not None:
                    work.append((s3, nb, acc + ((('chr', cid),) if n == 1 else tuple(('byte', cid, i, n) for i in range(n)))))
    return out


@model('core::str::as_bytes', 'core::str::bytes', 'alloc::string::String::as_bytes', 'alloc::string::String::into_bytes')
def as_bytes(I, st, args, c, site):
    v = txt_of(I, st, args[0])
    if v is None:
        return NotImplemented
    it = strip_generics(c['path']).endswith('::bytes')
    return [('ret', s, lst(bs) if it else ('ref', ('V', ('vec', tuple(('el', b) for b in bs))), ())) for s, bs in bytelist(I, st, v)]


BYTES = {(0, 2): (0xc2, 0xdf), (0, 3): (0xe0, 0xef), (0, 4): (0xf0, 0xf4)}


def byte_cmp(op, v, n):
    lo, hi = BYTES.get((v[2], v[3]), (0x80, 0xbf))
    r = {'Lt': (hi < n, lo >= n), 'Le': (hi <= n, lo > n), 'Gt': (lo > n, hi <= n), 'Ge': (lo >= n, hi < n), 'Eq': (False, n < lo or n > hi), 'Ne': (n < lo or n > hi, False)}[op]
    return ('b', True) if r[0] else ('b', False) if r[1] else top('byte of a character')


_sym = LexInterp.sym_arith


def sym_arith(self, st, op, a, b):
    if a[0] == 'byte' or b[0] == 'byte':
        if b[0] == 'byte' and a[0] == 'i':
            a, b = b, a
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        if a[0] == 'byte' and b[0] == 'i':
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return byte_cmp(op, a, b[1])
            if op == 'BitAnd' and b[1] in (0x80, 0xc0):
                return ('i', 0x80 if b[1] == 0x80 or a[2] else 0xc0)
        if op in ('Eq', 'Ne') and 'chr' in (a[0], b[0]):
            return ('b', op == 'Ne')     # a character that equals a byte is ASCII
        if a == b and op in ('Eq', 'Ne'):
            return ('b', op == 'Eq')
        return top('byte of a character')
    if op == 'BitAnd' and a[0] == 'chr' and b[0] == 'i' and b[1] in (0x80, 0xc0) and not self.cls(st, a[1]) & ~ASCII:
        return ('i', 0) if b[1] == 0x80 else top('bits of a character')
    return _sym(self, st, op, a, b)


LexInterp.sym_arith = sym_arith
_switch = LexInterp.switch


def switch(self, st, fr, t):
    v = self.operand(st, fr, t[1])
    if v[0] == 'byte':
        left = [x for x in t[2] if byte_cmp('Eq', v, x[0]) != ('b', False)]
        if not left:
            return [(st, t[3])]
        s = st.doubt('byte of a character')
        return [(s, x[1]) for x in left] + ([(s, t[3])] if t[3] is not None else [])
    return _switch(self, st, fr, t)


LexInterp.switch = switch
_rvalue = LexInterp.rvalue


def rvalue(self, st, fr, r):
    if r[0] == 'cast':
        v = self.operand(st, fr, r[2])
        if v[0] == 'chr' and r[3] in U8 and self.cls(st, v[1]) & ~ASCII:
            return top('character as a byte')
        if v[0] == 'byte':
            return v if r[3] in INTS else top('byte as a character')
    return _rvalue(self, st, fr, r)


INTS = {'u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize', 'i16', 'u128', 'i128'}
LexInterp.rvalue = rvalue

for _n, _m in PRED.items():
    if _n.startswith('is_ascii'):
        def _f(I, st, args, c, site, m=_m & ASCII, name=_n):
            v = I.strip(st, args[0])
            if v[0] == 'byte':
                return ret(st, ('b', False))
            if v[0] == 'chr':
                return [('ret', s, ('b', b)) for s, b in I.split(st, v[1], m)]
            if v[0] == 'i':
                return ret(st, ('b', v[1] < 128 and bool(m >> v[1] & 1)))
            return NotImplemented
        LM['core::num::' + _n] = _f


def _eq(self, st, a, b, depth=0):
    x, y = self.strip(st, a), self.strip(st, b)
    for p, q in ((x, y), (y, x)):
        if p[0] == 'byte' and q[0] in ('i', 'chr', 'byte'):
            return self.branch(st, self.sym_arith(st, 'Eq', p, q))
        if p[0] == 'chr' and q[0] == 'i':
            return self.branch(st, self.chcmp('Eq', p[1], chr(q[1]), False))
    return eq0(self, st, a, b, depth)


eq0, LexInterp.eq = LexInterp.eq, _eq


@model('core::char::from', 'core::char::convert::from_u32', 'core::char::methods::from_u32')
def char_from(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] == 'chr' and not I.cls(st, v[1]) & ~ASCII:
        return ret(st, v if not c['path'].endswith('from_u32') else opt(v))
    return NotImplemented


# --- slices of lists (bytes, tables) by ranges with computed ends
def concrete(I, st, n):
    if n is None:
        return None
    n = I.norm(st, n)
    return n[1] if n[0] == 'i' else 'no'


_index = LM['core::ops::index::Index::index']


@model('core::ops::index::Index::index', 'core::slice::index::index', 'core::slice::get', 'core::slice::index::SliceIndex::index', 'core::slice::split_at')
def slice_index(I, st, args, c, site):
    p = vec_place(I, st, args[0])
    if not p or p[2][0] != 'vec' or not all(x[0] == 'el' for x in p[2][1]):
        return _index(I, st, args, c, site) if 'Index::index' in c['decl'] else NotImplemented
    els = p[2][1]
    get = strip_generics(c['path']).endswith('::get')
    if isnum(args[1]):
        n = I.norm(st, args[1])
        if n[0] != 'i':
            return NotImplemented
        if 'split_at' in c['path']:
            return [('panic', st, 'here')] if n[1] > len(els) else ret(st, ('tup', tuple(('ref', ('V', ('vec', x)), ()) for x in (els[:n[1]], els[n[1]:]))))
        if n[1] >= len(els):
            return ret(st, opt(None)) if get else [('panic', st, 'here')]
        v = ('ref', p[0], p[1] + (('e', n),)) if p[0][0] != 'V' else ('ref', ('V', els[n[1]][1]), ())
        return ret(st, opt(v) if get else v)
    r = lexdom.range_of(I, st, args[1])
    if r is None:
        return NotImplemented
    lo, hi = concrete(I, st, r[0]), concrete(I, st, r[1])
    if 'no' in (lo, hi):
        return NotImplemented
    lo, hi = lo or 0, len(els) if hi is None else hi
    if lo > hi or hi > len(els):
        return ret(st, opt(None)) if get else [('panic', st, ('slice', 'range of a slice beyond its end'))]
    v = ('ref', ('V', ('vec', els[lo:hi])), ())
    return ret(st, opt(v) if get else v)


def concrete_list(I, st, a):
    v = I.strip(st, a)
    return [x[1] for x in v[1]] if v[0] == 'vec' and all(x[0] == 'el' for x in v[1]) else None


@model('core::slice::starts_with', 'core::slice::ends_with', 'core::slice::strip_prefix')
def slice_starts(I, st, args, c, site):
    a, b = concrete_list(I, st, args[0]), concrete_list(I, st, args[1])
    if a is None or b is None:
        return NotImplemented
    k = strip_generics(c['path']).rsplit('::', 1)[1]
    if len(b) > len(a):
        return ret(st, opt(None) if 'strip' in k else ('b', False))
    xs = a[len(a) - len(b):] if k == 'ends_with' else a[:len(b)]
    cur, out = [st], []
    for x, y in zip(xs, b):
        nxt = []
        for s in cur:
            for s2, e in I.eq(s, x, y):
                if e:
                    nxt.append(s2)
                else:
                    out.append(('ret', s2, opt(None) if 'strip' in k else ('b', False)))
        cur = nxt
    return out + [('ret', s, ('b', True) if 'strip' not in k else opt(('ref', ('V', ('vec', tuple(('el', z) for z in a[len(b):]))), ()))) for s in cur]


@model('core::slice::partition_point')
def partition_point(I, st, args, c, site):
    els = concrete_list(I, st, args[0])
    if els is None:
        return NotImplemented
    out, cur = [], [st]
    for n, e in enumerate(els):
        nxt = []
        for s in cur:
            for o, b in truth(I, s, args[1], ('ref', ('V', e), ()), (site, 'partition_point')):
                if b is None:
                    out.append(o)
                elif b:
                    nxt.append(o[1])
                else:
                    out.append(('ret', o[1], ('i', n)))
        cur = nxt
    return out + [('ret', s, ('i', len(els))) for s in cur]


@model('core::slice::binary_search', 'core::slice::binary_search_by_key')
def binary_search(I, st, args, c, site):
    els = concrete_list(I, st, args[0])
    if els is None:
        return NotImplemented
    keys = []
    if c['path'].endswith('by_key') or 'by_key' in c['path']:
        for e in els:
            r = I.invoke(st, args[2], [('ref', ('V', e), ())], (site, 'by_key'))
            if len(r) != 1 or r[0][0] != 'ret':
                return NotImplemented
            keys.append(r[0][2][0])
    else:
        keys = els
    keys = [I.strip(st, x) for x in keys]
    ls = [lit_of(x) if x[0] == 's' else x[1] if x[0] in ('i', 'ch') else None for x in keys]
    if None in ls:
        return NotImplemented
    enc = [x.encode() if isinstance(x, str) else x for x in ls]
    sorted_ = all(enc[i] < enc[i + 1] for i in range(len(enc) - 1))
    x = I.strip(st, args[1])
    if x[0] not in ('txt', 's', 'chr', 'i', 'lin'):
        return NotImplemented
    if not sorted_:
        # what is found depends on how the library looks; only what is not there at all is certain
        return ret(st.doubt('binary search in a table that is not sorted'), top('binary search'))
    out, cur = [], [st]
    for n, kx in enumerate(keys):
        nxt = []
        for s in cur:
            for s2, e in I.eq(s, kx, x):
                if e:
                    out.append(('ret', s2, ok(('i', n))))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [('ret', s, err(top('position of what is not there'))) for s in cur]


# ------------------------------------------------------------------ maps
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')
SETS = ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet')


def mapnames(tail, kinds=MAPS):
    return [m + '::' + t for m in kinds for t in tail]


def map_place(I, st, a):
    """(root, projs, entries) of a map value"""
    while a[0] in ('ref', 'box'):
        if a[0] == 'box':
            a = a[1]
            continue
        v = I.read(st, a[1], a[2])
        if v[0] == 'map':
            return (a[1], a[2], v)
        a = v
    return (None, None, a) if a[0] == 'map' else None


@model(*mapnames(['new', 'default', 'with_capacity']), *mapnames(['new', 'default', 'with_capacity'], SETS))
def map_new(I, st, args, c, site):
    return ret(st, ('map', ()))


def entries(I, st, v, isset):
    out = []
    for e in v:
        e = I.strip(st, e)
        if isset:
            out.append((e, UNIT))
        elif e[0] == 'tup' and len(e[1]) == 2:
            out.append(e[1])
        else:
            return None
    # later entries win; keys must be told apart
    keys = [I.strip(st, k) for k, _ in out]
    if any(k[0] not in ('s', 'i', 'ch') or k[0] == 's' and lit_of(k) is None for k in keys):
        return None
    d = {}
    for k, e in zip(keys, out):
        d[k] = e
    return ('map', tuple(d.values()))


_from = LM['core::convert::From::from']


@model('core::convert::From::from', 'core::convert::Into::into')
def map_from(I, st, args, c, site):
    name = c.get('name') or ''
    t = (c.get('targs') or c.get('dargs') or [''])[0]
    kind = [m for m in MAPS + SETS if m in strip_generics(c['path']) or I.ty(t).get('path') == m]
    if kind:
        els = concrete_list(I, st, args[0])
        m = entries(I, st, els, kind[0] in SETS) if els is not None else None
        if m:
            return ret(st, m)
    return _from(I, st, args, c, site)


for _p in mapnames(['from', 'from_iter']) + mapnames(['from', 'from_iter'], SETS):
    LM[_p] = map_from


@model(*mapnames(['get', 'contains_key', 'get_key_value', 'index']), *mapnames(['contains', 'get'], SETS))
def map_get(I, st, args, c, site):
    p = map_place(I, st, args[0])
    if not p:
        return NotImplemented
    k = strip_generics(c['path']).rsplit('::', 1)[1]
    out, cur = [], [st]
    for key, val in p[2][1]:
        nxt = []
        for s in cur:
            for s2, e in I.eq(s, key, args[1]):
                if e:
                    r = ('ref', ('V', val), ())
                    if 'contains' in k:
                        r = ('b', True)
                    elif k == 'get_key_value':
                        r = opt(('tup', (('ref', ('V', key), ()), r)))
                    elif k == 'get':
                        r = opt(r)
                    out.append(('ret', s2, r))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        out.append(('panic', s, 'here') if k == 'index' else ('ret', s, ('b', False) if 'contains' in k else opt(None)))
    return out


@model(*mapnames(['insert']), *mapnames(['insert'], SETS))
def map_insert(I, st, args, c, site):
    p = map_place(I, st, args[0])
    if not p or p[0] is None or p[0][0] == 'V':
        return NotImplemented
    key = I.strip(st, args[1])
    isset = len(args) == 2
    s = st.copy()
    if key[0] not in ('s', 'i', 'ch') or key[0] == 's' and lit_of(key) is None:
        I.write(s, p[0], p[1], top('map'))
        return ret(s.doubt('map'), top('insert'))
    d = {I.strip(st, k): (k, v) for k, v in p[2][1]}
    old = d.get(key)
    d[key] = (args[1], UNIT if isset else args[2])
    I.write(s, p[0], p[1], ('map', tuple(d.values())))
    return ret(s, ('b', old is None) if isset else opt(None if old is None else old[1]))


_collect = LM['core::iter::traits::iterator::Iterator::collect']


@itmodel('collect')
def collect(I, st, args, c, site):
    ts = c.get('targs') or []
    t = ts[-1] if ts else ''
    it, place = as_it(I, st, args[0])
    ki = I.ty(t)
    if ki.get('path') in MAPS + SETS:
        def k(s, it2, item):
            if item is None:
                return [('ret', s, None)]
            return [('more', s, (it2, item))]
        work, out = [(st, it, ())], []
        while work:
            tick(I)
            s, cur, acc = work.pop()
            for o in I.pull(s, cur, k):
                if o[0] == 'more':
                    work.append((o[1], o[2][0], acc + (o[2][1],)))
                elif o[0] == 'ret':
                    m = entries(I, o[1], acc, ki['path'] in SETS)
                    out.append(('ret', o[1], m) if m else ('ret', o[1].doubt('map'), top('map')))
                else:
                    out.append(o)
        return out
    if source_ci(it) and (I.is_string(t)):
        e = elements(I, st, it) if is_ci(it) and place is None else None
        if e is not None and it[2] == 'chars':
            return ret(st, ('txt', it[3], it[4]))

        def body(s, acc, item):
            s = s.copy()
            s.mem[acc] = joined(I, s, s.mem[acc], I.strip(s, item))
            return [('cont', s)]
        return lexdom.consume(I, st, args, site, 'collect', lit(''), body, lambda s, acc: ret(s, s.mem[acc]))
    if source_ci(it):
        return NotImplemented     # into a list: element by element
    return _collect(I, st, args, c, site) if source_ci(it) else NotImplemented


def joined(I, st, a, x):
    """a text followed by a character or text: known when the result is a part of the document"""
    bids, ss = st.mem[D]
    if x[0] == 'chr':
        at = [i for i, y in enumerate(ss) if y[0] == 'c' and y[1] == x[1]]
        if len(at) != 1:
            return top('text')
        x = ('txt', bids[at[0]], bids[at[0] + 1])
    if x[0] == 'txt':
        if I.canonbid(st, x[1]) == I.canonbid(st, x[2]):
            return a
        if a[0] == 's' and lit_of(a) == '':
            return x
        if a[0] == 'txt':
            if I.canonbid(st, a[1]) == I.canonbid(st, a[2]):
                return x
            if I.canonbid(st, a[2]) == I.canonbid(st, x[1]):
                return ('txt', a[1], x[2])
    return top('text built in a loop')


_push = LM['alloc::string::String::push']


@model('alloc::string::String::push', 'alloc::string::String::push_str')
def push(I, st, args, c, site):
    a = args[0]
    v = I.strip(st, args[1])
    if a[0] == 'ref' and v[0] in ('chr', 'txt') and D in st.mem:
        old = I.strip(st, a)
        if old[0] in ('s', 'txt'):
            s = st.copy()
            I.write(s, a[1], a[2], joined(I, st, old, v))
            return ret(s, UNIT)
    return _push(I, st, args, c, site)


# ------------------------------------------------------------------ statics
_LAZY = ('std::sync::lazy_lock::LazyLock', 'core::cell::lazy::LazyCell', 'once_cell::sync::Lazy')


@model(*[l + '::new' for l in _LAZY])
def lazy_new(I, st, args, c, site):
    return ret(st, ('lazy', args[0]))


@model(*[l + '::' + m for l in _LAZY for m in ('force', 'deref')])
def lazy_force(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'lazy':
        return NotImplemented
    return force(I, st, v, site)


def force(I, st, v, site):
    out = []
    for o in I.invoke(st, v[1], [], (site, 'lazy')):
        out.append(('ret', o[1], ('ref', ('V', o[2][0]), ())) if o[0] == 'ret' else o)
    return out


_deref = LM['core::ops::deref::Deref::deref']


@model('core::ops::deref::Deref::deref')
def deref(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] == 'lazy':
        return force(I, st, v, site)
    return _deref(I, st, args, c, site)
