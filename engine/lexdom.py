"""Abstract domain for scanners: a text of characters and runs of unknown length, described by finite automata.

A text is a sequence of segments between boundaries: a character of a known class, or a run, i.e. any word that leads an
automaton from one state to another.  Characters are abstracted by the atoms of a finite partition of Unicode that
distinguishes all ASCII characters and, beyond, what the standard character predicates and the UTF-8 length distinguish.
Numbers are linear forms over the lengths (bytes, characters, line breaks) of segments.  A loop that moves through a run is
summarised by generalising the states of two iterations: the consumed part becomes a run of its own, positions become
boundaries of the text and other counters are related to position, line or column of a boundary (a candidate relation is
dropped unless every further iteration keeps it)."""
import sys, itertools
import time as _time
try:
    import re._parser as sre_parse
    import re._constants as sre
except ImportError:
    import sre_parse
    import sre_constants as sre
from interp import *
import interp as _interp
import models
from models import ret, opt, ok, err, lit_of, as_it, pull_from, OPT

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ characters
NONASCII = [  # (example, bytes, kinds)
    ('\u0085', 2, 'wc'), ('\u00a0', 2, 'w'), ('\u1680', 3, 'w'), ('\u3000', 3, 'w'),
    ('\u00e9', 2, 'al'), ('\u00c9', 2, 'aL'), ('\u4e2d', 3, 'a'), ('\u1e9f', 3, 'al'), ('\u1e9e', 3, 'aL'), ('\U00020000', 4, 'a'),
    ('\U0001d41a', 4, 'al'), ('\U0001d400', 4, 'aL'), ('\u0660', 2, 'n'), ('\u0966', 3, 'n'), ('\U0001d7d8', 4, 'n'), ('\u00b2', 2, 'n'),
    ('\u00a7', 2, ''), ('\u20ac', 3, ''), ('\U0001f600', 4, ''), ('\u0080', 2, 'c')]
NA = 128 + len(NONASCII)
ALL = (1 << NA) - 1
ASCII = (1 << 128) - 1


def mk(f):
    m = 0
    for i in range(128):
        if f(chr(i)):
            m |= 1 << i
    return m


def beyond(kind):
    m = 0
    for i, (e, n, k) in enumerate(NONASCII):
        if (kind in k) if isinstance(kind, str) else kind(n, k):
            m |= 1 << (128 + i)
    return m


def chars(s):
    m = 0
    for c in s:
        m |= atom(c)
    return m


def atom(c):
    """the class of one character; None when it is part of a larger atom"""
    if ord(c) < 128:
        return 1 << ord(c)
    return None


DIGIT, LOWER, UPPER = chars('0123456789'), chars('abcdefghijklmnopqrstuvwxyz'), chars('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
NL = chars('\n')
WORD = DIGIT | LOWER | UPPER | chars('_')
HEX = DIGIT | chars('abcdefABCDEF')
WS = chars('\t\n\x0b\x0c\r ') | beyond('w')
ALPHA, NUMERIC = LOWER | UPPER | beyond('a'), DIGIT | beyond('n')
WIDTH = {1: ASCII, 2: beyond(lambda n, k: n == 2), 3: beyond(lambda n, k: n == 3), 4: beyond(lambda n, k: n == 4)}
PUNCT = mk(lambda c: 33 <= ord(c) < 127 and not c.isalnum())
PRED = {
    'is_whitespace': WS, 'is_alphanumeric': ALPHA | NUMERIC, 'is_alphabetic': ALPHA, 'is_numeric': NUMERIC, 'is_ascii': ASCII, 'is_ascii_digit': DIGIT,
    'is_ascii_alphabetic': LOWER | UPPER, 'is_ascii_alphanumeric': LOWER | UPPER | DIGIT, 'is_ascii_uppercase': UPPER, 'is_ascii_lowercase': LOWER,
    'is_ascii_hexdigit': HEX, 'is_ascii_punctuation': PUNCT, 'is_ascii_whitespace': chars('\t\n\x0c\r '), 'is_control': mk(lambda c: ord(c) < 32 or ord(c) == 127) | beyond('c'),
    'is_uppercase': UPPER | beyond('L'), 'is_lowercase': LOWER | beyond('l'), 'is_ascii_graphic': mk(lambda c: 33 <= ord(c) < 127),
    'is_ascii_control': mk(lambda c: ord(c) < 32 or ord(c) == 127)}


def example(mask):
    """a readable character of the class"""
    for pref in (LOWER, UPPER, DIGIT, PUNCT, chars(' \n'), ALL):
        m = mask & pref
        if m:
            i = (m & -m).bit_length() - 1
            return chr(i) if i < 128 else NONASCII[i - 128][0]
    return '?'


def widths(mask):
    return [n for n in (1, 2, 3, 4) if mask & WIDTH[n]]


# ------------------------------------------------------------------ automata
class Aut:
    def __init__(self, tr, name=''):
        self.tr = {q: [(m, p) for m, p in ts if m] for q, ts in tr.items()}
        self.name = name
        self._live, self._min, self._mask = {}, {}, {}

    def step(self, q):
        return self.tr.get(q, [])

    def live(self, F):
        """states from which some state of F can be reached"""
        r = self._live.get(F)
        if r is None:
            r = set(F)
            ch = True
            while ch:
                ch = False
                for q, ts in self.tr.items():
                    if q not in r and any(p in r for m, p in ts):
                        r.add(q)
                        ch = True
            self._live[F] = r
        return r

    def opts(self, q, F):
        """[(mask, state)] of the next character"""
        l = self.live(F)
        g = {}
        for m, p in self.step(q):
            if p in l:
                g[p] = g.get(p, 0) | m
        return [(m, p) for p, m in g.items()]

    def minlen(self, q, F):
        k = (q, F)
        if k not in self._min:
            seen, front, n = {q}, [q], 0
            while front and not any(x in F for x in front):
                n += 1
                nf = []
                for x in front:
                    for m, p in self.step(x):
                        if p not in seen:
                            seen.add(p)
                            nf.append(p)
                front = nf
            self._min[k] = n if front else 1 << 30
        return self._min[k]

    def mask(self, q, F):
        k = (q, F)
        if k not in self._mask:
            l = self.live(F)
            seen, front, m = {q}, [q], 0
            while front:
                x = front.pop()
                for mm, p in self.step(x):
                    if p in l:
                        m |= mm
                        if p not in seen:
                            seen.add(p)
                            front.append(p)
            self._mask[k] = m
        return self._mask[k]


AUT = {}


def aut(name, tr):
    AUT[name] = Aut(tr, name)
    return name


aut('any', {0: [(ALL, 0)]})
aut('ws', {0: [(WS, 0)]})


# ------------------------------------------------------------------ linear forms
def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ('i', c)
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def parts(v):
    if v[0] == 'i':
        return v[1], {}
    return v[1], dict(v[2])


def isnum(v):
    return v[0] in ('i', 'lin')


def add(a, b, k=1):
    ca, da = parts(a)
    cb, db = parts(b)
    for x, n in db.items():
        da[x] = da.get(x, 0) + k * n
    return mklin(ca + k * cb, da)


def sub(a, b):
    return add(a, b, -1)


def var(x):
    return ('lin', 0, ((x, 1),))


D = ('D', 0)


class NoGen(Exception):
    pass


class LexInterp(Interp):
    def __init__(self, mir, **kw):
        super().__init__(mir, **kw)
        self.n = 0
        self.runs = {}
        self.vislimit = 40
        self.loops = {}
        self._livein = {}
        self._nested = {}
        self.maxfix = 14
        self.unroll = False     # texts without runs: every loop is followed to its end
        self.peel = 4           # rounds of a loop that may be unrolled in search of a better generalisation

    def fresh(self, k):
        self.n += 1
        return (k, self.n)

    # ------------------------------------------------------------ documents
    def newdoc(self, st, segs):
        """segs: ('lit', text) | ('ch', mask) | ('run', automaton, q, F).  returns (state, boundaries of the given segments)"""
        st = st.copy()
        bids, out = [self.fresh('B')], []
        marks = [bids[0]]
        for s in segs:
            if s[0] == 'lit':
                for c in s[1]:
                    cid = self.fresh('C')
                    m = atom(c)
                    st.facts[('cls', cid)] = m if m is not None else chars_of(c)
                    out.append(('c', cid, None, 0, 0))
                    bids.append(self.fresh('B'))
            elif s[0] == 'ch':
                cid = self.fresh('C')
                st.facts[('cls', cid)] = s[1]
                out.append(('c', cid, None, 0, 0))
                bids.append(self.fresh('B'))
            else:
                out.append(self.mkrun(s[1], s[2], frozenset(s[3])))
                bids.append(self.fresh('B'))
            marks.append(bids[-1])
        st.mem[D] = (tuple(bids), tuple(out))
        return st, marks

    def mkrun(self, A, q, F):
        rid = self.fresh('R')
        self.runs[rid] = (A, q, F)
        return ('r', rid, A, q, F)

    def cls(self, st, cid):
        return st.facts.get(('cls', cid), ALL)

    def refine(self, st, cid, mask):
        """None when the class becomes empty"""
        m = self.cls(st, cid)
        n = m & mask
        if not n:
            return None
        if n == m:
            return st
        return st.fact(('cls', cid), n)

    def split(self, st, cid, mask):
        """[(state, bool)]"""
        out = []
        a, b = self.refine(st, cid, mask), self.refine(st, cid, ALL & ~mask)
        if a is not None:
            out.append((a, True))
        if b is not None:
            out.append((b, False))
        return out

    def index(self, st, bid):
        return st.mem[D][0].index(bid)

    def replace(self, st, i, segs, inner):
        """segment i becomes segs with the new inner boundaries"""
        bids, ss = st.mem[D]
        st = st.copy()
        old = ss[i]
        st.mem[D] = (bids[:i + 1] + tuple(inner) + bids[i + 1:], ss[:i] + tuple(segs) + ss[i + 1:])
        if old[0] == 'r':
            st.facts[('open', old[1])] = tuple(s for s in segs if s[0] != 'e')
        return st

    def canonbid(self, st, bid):
        bids, ss = st.mem[D]
        i = bids.index(bid)
        while i > 0 and ss[i - 1][0] == 'e':
            i -= 1
        return bids[i]

    def front(self, st, bid, end=None):
        """the character after a boundary: [(state, cid | None, boundary after it)]; None at the end (boundary `end`)"""
        bids, ss = st.mem[D]
        i = bids.index(bid)
        j = bids.index(end) if end is not None else len(ss)
        while i < j and ss[i][0] == 'e':
            i += 1
        if i >= j:
            return [(st, None, bid)]
        s = ss[i]
        if s[0] == 'c':
            return [(st, s[1], bids[i + 1])]
        _, rid, A, q, F = s
        out = []
        a = AUT[A]
        for m, p in a.opts(q, F):
            cid, nb = self.fresh('C'), self.fresh('B')
            c = ('c', cid, A, q, p)
            s2 = self.replace(st, i, (c, self.mkrun(A, p, F)), (nb,))
            s2.facts[('cls', cid)] = m
            out.append((s2, cid, nb))
        if q in F:
            out += self.front(self.replace(st, i, (('e', A, q, rid),), ()), bid, end)
        return out

    def back(self, st, bid):
        """the character before a boundary: [(state, cid | None, boundary before it)]"""
        bids, ss = st.mem[D]
        i = bids.index(bid)
        while i > 0 and ss[i - 1][0] == 'e':
            i -= 1
        if i == 0:
            return [(st, None, bid)]
        s = ss[i - 1]
        if s[0] == 'c':
            return [(st, s[1], bids[i - 1])]
        _, rid, A, q, F = s
        a = AUT[A]
        out = []
        reach = {q}
        front = [q]
        while front:
            x = front.pop()
            for m, p in a.step(x):
                if p not in reach:
                    reach.add(p)
                    front.append(p)
        for x in sorted(reach, key=repr):
            for m, p in a.step(x):
                if p in F:
                    cid, nb = self.fresh('C'), self.fresh('B')
                    s2 = self.replace(st, i - 1, (self.mkrun(A, q, frozenset([x])), ('c', cid, A, x, p)), (nb,))
                    s2.facts[('cls', cid)] = m
                    out.append((s2, cid, nb))
        if q in F:
            out += self.back(self.replace(st, i - 1, (('e', A, q, rid),), ()), bid)
        return out

    # ------------------------------------------------------------ ghosts
    def sbl(self, s):
        return ('i', 0) if s[0] == 'e' else var(('bl', s[1]))

    def runmask(self, rid):
        A, q, F = self.runs[rid]
        return AUT[A].mask(q, F)

    def norm(self, st, v, depth=0):
        if v[0] != 'lin':
            return v
        r = ('i', v[1])
        for x, n in v[2]:
            r = add(r, self.nvar(st, x, depth), n)
        return r

    def nvar(self, st, x, depth):
        k = x[0]
        if depth > 60:
            return var(x)
        sb = st.facts.get(('sub', x))
        if sb is not None:
            return self.norm(st, sb, depth + 1)
        if k == 'hv':
            cs = st.facts.get(('cands', x[1]))
            if cs:
                g, a, d = cs[0]
                return self.norm(st, add(self.ghost(st, g, a), d), depth + 1)
            return var(x)
        if k in ('bl', 'cl', 'nl', 'col'):
            i = x[1]
            if i[0] == 'R':
                o = st.facts.get(('open', i))
                if o is not None:
                    if k == 'col':
                        e = x[2]
                        for s in o:
                            e = self.colstep(st, s, e)
                        return self.norm(st, e, depth + 1)
                    r = ('i', 0)
                    for s in o:
                        r = add(r, self.nvar(st, (k, s[1]), depth + 1))
                    return r
                m = self.runmask(i)
                if k == 'bl':
                    w = widths(m)
                    if len(w) <= 1:
                        return add(('i', 0), self.nvar(st, ('cl', i), depth + 1), w[0] if w else 0)
                    return var(x)
                if k == 'cl':
                    A, q, F = self.runs[i]
                    if not m:
                        return ('i', 0)
                    return var(x)
                if k == 'nl':
                    return var(x) if m & NL else ('i', 0)
                if not m & NL:
                    return self.norm(st, add(x[2], var(('bl', i))), depth + 1)
                return var(('col', i, self.norm(st, x[2], depth + 1)))
            m = self.cls(st, i)
            if k == 'cl':
                return ('i', 1)
            if k == 'bl':
                w = widths(m)
                return ('i', w[0]) if len(w) == 1 else var(x)
            if k == 'nl':
                return ('i', 1) if m == NL else ('i', 0) if not m & NL else var(x)
            if m == NL:
                return ('i', 0)
            if not m & NL:
                return self.norm(st, add(x[2], var(('bl', i))), depth + 1)
            return var(('col', i, self.norm(st, x[2], depth + 1)))
        return var(x)

    def colstep(self, st, s, e):
        return e if s[0] == 'e' else self.norm(st, var(('col', s[1], e)))

    def ghosts(self, st):
        """{bid: {'pos','cpos','nl','col': lin}}"""
        bids, ss = st.mem[D]
        g = {'pos': ('i', 0), 'cpos': ('i', 0), 'nl': ('i', 0), 'col': ('i', 0)}
        out = {bids[0]: g}
        for i, s in enumerate(ss):
            if s[0] != 'e':
                g = {'pos': add(g['pos'], self.nvar(st, ('bl', s[1]), 0)), 'cpos': add(g['cpos'], self.nvar(st, ('cl', s[1]), 0)),
                     'nl': add(g['nl'], self.nvar(st, ('nl', s[1]), 0)), 'col': self.norm(st, var(('col', s[1], g['col'])))}
            out[bids[i + 1]] = g
        return out

    def ghost(self, st, g, bid):
        if g == 'const':
            return ('i', 0)
        bids, ss = st.mem[D]
        if g == 'col':
            return self.ghosts(st)[bid]['col']
        k = {'pos': 'bl', 'cpos': 'cl', 'nl': 'nl'}[g]
        r = ('i', 0)
        for s in ss[:bids.index(bid)]:
            if s[0] != 'e':
                r = add(r, self.nvar(st, (k, s[1]), 0))
        return r

    # ------------------------------------------------------------ comparisons
    def lower(self, st, v):
        """a lower bound of a normal linear form, or None"""
        c, d = parts(v)
        d = dict(d)
        for _ in range(6):
            # negative coefficients: bl = cl + (more), nl and col are bounded by lengths
            ch = False
            for x, n in list(d.items()):
                if x[0] == 'bl' and x[1][0] == 'R' and n > 0:
                    del d[x]
                    cl = ('cl', x[1])
                    c2, d2 = parts(self.nvar(st, cl, 0))
                    c += n * c2
                    for y, m in d2.items():
                        d[y] = d.get(y, 0) + n * m
                    ch = True
                elif x[0] == 'nl' and n < 0:
                    del d[x]
                    c2, d2 = parts(self.nvar(st, ('cl', x[1]), 0)) if x[1][0] == 'R' else (1, {})
                    c += n * c2
                    for y, m in d2.items():
                        d[y] = d.get(y, 0) + n * m
                    ch = True
                elif x[0] == 'col' and n < 0:
                    del d[x]
                    c2, d2 = parts(add(x[2], self.nvar(st, ('bl', x[1]), 0)))
                    c += n * c2
                    for y, m in d2.items():
                        d[y] = d.get(y, 0) + n * m
                    ch = True
            d = {x: n for x, n in d.items() if n}
            if not ch:
                break
        for x, n in d.items():
            if n > 0:
                if x[0] == 'bl':
                    w = widths(self.cls(st, x[1])) if x[1][0] == 'C' else [0]
                    c += n * min(w)
                elif x[0] == 'cl':
                    A, q, F = self.runs[x[1]]
                    c += n * AUT[A].minlen(q, F)
            else:
                if x[0] == 'bl' and x[1][0] == 'C':
                    c += n * max(widths(self.cls(st, x[1])))
                else:
                    return None
        return c

    def bounds(self, st, v):
        v = self.norm(st, v)
        if v[0] == 'i':
            return v[1], v[1]
        lo, up = self.lower(st, v), self.lower(st, sub(('i', 0), v))
        for f in st.facts.get(('ge0',), ()):
            f = self.norm(st, f)
            for sgn in (1, -1):
                w = v if sgn == 1 else sub(('i', 0), v)
                b = self.lower(st, sub(w, f))
                if b is not None:
                    if sgn == 1:
                        lo = b if lo is None else max(lo, b)
                    else:
                        up = b if up is None else max(up, b)
        return lo, (None if up is None else -up)

    def compare(self, st, op, a, b, depth=0):
        """[(state, bool)] of a op b for linear forms"""
        d = self.norm(st, sub(a, b))
        lo, hi = self.bounds(st, d)
        if op in ('Gt', 'Le'):
            return [(s, v) for s, v in self.compare(st, {'Gt': 'Lt', 'Le': 'Ge'}[op], b, a, depth)]
        if op == 'Ne':
            return [(s, not v) for s, v in self.compare(st, 'Eq', a, b, depth)]
        if op == 'Ge':
            return [(s, not v) for s, v in self.compare(st, 'Lt', a, b, depth)]
        if op == 'Lt':
            if hi is not None and hi < 0:
                return [(st, True)]
            if lo is not None and lo >= 0:
                return [(st, False)]
        else:
            if lo == 0 and hi == 0:
                return [(st, True)]
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return [(st, False)]
            if st.facts.get(('ne0', d)) or st.facts.get(('ne0', sub(('i', 0), d))):
                return [(st, False)]
        # the difference depends on one run (or character): look at its beginning
        c, vs = parts(d)
        if depth < 4 and len(vs) == 1:
            x = next(iter(vs))
            if x[0] in ('cl', 'bl') and x[1][0] == 'R' and abs(c) <= 4:
                bids, ss = st.mem[D]
                for i, s in enumerate(ss):
                    if s[0] == 'r' and s[1] == x[1]:
                        out = []
                        for s2, cid, nb in self.front(st, bids[i], bids[i + 1]):
                            out += self.compare(s2, op, a, b, depth + 1)
                        return out
        if len(vs) >= 1 and all(x[0] == 'bl' and x[1][0] == 'C' for x in vs) and depth < 6:
            x = next(iter(vs))
            out = []
            for n in widths(self.cls(st, x[1])):
                s2 = self.refine(st, x[1], WIDTH[n])
                if s2 is not None:
                    out += self.compare(s2, op, a, b, depth + 1)
            return out
        if op == 'Lt':
            t = st.fact(('ge0',), st.facts.get(('ge0',), ()) + (sub(sub(('i', 0), d), ('i', 1)),))
            f = st.fact(('ge0',), st.facts.get(('ge0',), ()) + (d,))
            return [(t, True), (f, False)]
        t = st.fact(('ge0',), st.facts.get(('ge0',), ()) + (d, sub(('i', 0), d)))
        for x, n in vs.items():
            if abs(n) == 1 and x[0] in ('bl', 'cl', 'col', 'nl'):
                rest = mklin(c, {y: m for y, m in vs.items() if y != x})
                t.facts[('sub', x)] = sub(('i', 0), rest) if n == 1 else rest
                break
        return [(t, True), (st.fact(('ne0', d), True), False)]

    # ------------------------------------------------------------ seeking
    def seek(self, st, bid, n, ghost, end=None):
        """the boundary n bytes/characters (a linear form) behind bid: [(state, boundary | ('end',) | ('lost', why, over))]"""
        bids, ss = st.mem[D]
        i = bids.index(bid)
        j = bids.index(end) if end is not None else len(ss)
        n = self.norm(st, n)
        lo, hi = self.bounds(st, n)
        if hi is not None and hi < 0:
            return [(st, ('lost', 'before the start', n))]
        k = {'pos': 'bl', 'cpos': 'cl'}[ghost]
        acc, best = ('i', 0), None
        dists = []
        for t in range(i, j + 1):
            d = self.norm(st, sub(n, acc))
            dists.append((t, d))
            if d == ('i', 0):
                return [(st, bids[t])]
            if d[0] == 'i' and (best is None or abs(d[1]) < abs(best[1]) or abs(d[1]) == abs(best[1]) and d[1] > 0):
                best = (t, d[1])
            if t < j and ss[t][0] != 'e':
                acc = add(acc, self.nvar(st, (k, ss[t][1]), 0))
        if best and abs(best[1]) <= 40:
            t, d = best
            return self.walk(st, bids[t], d, ghost, end, bid)
        if n[0] == 'i' and n[1] <= 64:
            return self.walk(st, bid, n[1], ghost, end, bid)
        # no boundary at a known distance
        t, d = dists[-1]
        cand = None
        for t, d in dists:
            lo, hi = self.bounds(st, d)
            if lo is not None and lo >= 0 or hi is not None and hi <= 0:
                if cand is None or len(parts(d)[1]) < len(parts(cand[1])[1]):
                    cand = (t, d, lo is not None and lo >= 0)
        if cand is None:
            return [(st, ('lost', 'unknown', n))]
        t, d, over = cand
        out = []
        for s2, e in self.compare(st, 'Eq', d, ('i', 0)):
            if e:
                out.append((s2, bids[t]))
            else:
                dd = self.norm(s2, d)
                if dd[0] == 'i':
                    out += self.walk(s2, bids[t], dd[1], ghost, end, bid)
                else:
                    out.append((s2, ('lost', 'over' if over else 'short', dd)))
        return out

    def walk(self, st, bid, d, ghost, end, start):
        if d == 0:
            return [(st, bid)]
        out = []
        if d > 0:
            for s2, cid, nb in self.front(st, bid, end):
                if cid is None:
                    out.append((s2, ('end',)))
                    continue
                if ghost == 'cpos':
                    out += self.walk(s2, nb, d - 1, ghost, end, start)
                else:
                    for n in widths(self.cls(s2, cid)):
                        s3 = self.refine(s2, cid, WIDTH[n])
                        if s3 is None:
                            continue
                        if n > d:
                            out.append((s3, ('lost', 'inside a character', ('i', d))))
                        else:
                            out += self.walk(s3, nb, d - n, ghost, end, start)
        else:
            for s2, cid, nb in self.back(st, bid):
                if cid is None:
                    out.append((s2, ('lost', 'before the start', ('i', d))))
                    continue
                if ghost == 'cpos':
                    out += self.walk(s2, nb, d + 1, ghost, end, start)
                else:
                    for n in widths(self.cls(s2, cid)):
                        s3 = self.refine(s2, cid, WIDTH[n])
                        if s3 is None:
                            continue
                        if n > -d:
                            out.append((s3, ('lost', 'inside a character', ('i', d))))
                        else:
                            out += self.walk(s3, nb, d + n, ghost, end, start)
        return out

    # ------------------------------------------------------------ values
    def length(self, st, v):
        if v[0] == 'txt':
            return self.norm(st, sub(self.ghost(st, 'pos', v[2]), self.ghost(st, 'pos', v[1])))
        return super().length(st, v)

    def seq_empty(self, st, v):
        if v[0] == 'txt':
            return ('c', ('lcmp', 'Eq', self.length(st, v), ('i', 0)))
        return super().seq_empty(st, v)

    def sym_arith(self, st, op, a, b):
        if isnum(a) and isnum(b):
            if op in ('Add', 'Sub'):
                return add(a, b, 1 if op == 'Add' else -1)
            if op == 'Mul' and (a[0] == 'i' or b[0] == 'i'):
                if b[0] != 'i':
                    a, b = b, a
                r = ('i', 0)
                return add(r, a, b[1])
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return ('c', ('lcmp', op, a, b))
            return top('arithmetic ' + op)
        for p, q, sw in ((a, b, False), (b, a, True)):
            if p[0] == 'chr' and q[0] in ('ch', 'i'):
                c = q[1] if q[0] == 'ch' else chr(q[1])
                return self.chcmp(op, p[1], c, sw)
        if a[0] == 'chr' and b[0] == 'chr' and op in ('Eq', 'Ne'):
            if a == b:
                return ('b', op == 'Eq')
            return ('c' if op == 'Eq' else 'cn', ('cheq', a[1], b[1]))
        return super().sym_arith(st, op, a, b)

    def chcmp(self, op, cid, c, sw):
        if sw:
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        m = 0
        n = ord(c)
        if n >= 128:
            x = chars_of(c)
            if op in ('Eq', 'Ne'):
                return ('c' if op == 'Eq' else 'cn', ('chpart', cid, c))
            for i in range(128):
                if {'Lt': i < n, 'Le': i <= n, 'Gt': i > n, 'Ge': i >= n}[op]:
                    m |= 1 << i
            for i, (e, w, k) in enumerate(NONASCII):
                if {'Lt': ord(e) < n, 'Le': ord(e) <= n, 'Gt': ord(e) > n, 'Ge': ord(e) >= n}[op]:
                    m |= 1 << (128 + i)
            return ('c', ('chin', cid, m))
        for i in range(128):
            if {'Eq': i == n, 'Ne': i != n, 'Lt': i < n, 'Le': i <= n, 'Gt': i > n, 'Ge': i >= n}[op]:
                m |= 1 << i
        if op in ('Gt', 'Ge', 'Ne'):
            m |= ALL & ~ASCII
        return ('c', ('chin', cid, m))

    def binop(self, st, op, a, b):
        if isnum(a) and isnum(b) and op in ('SubWithOverflow', 'Sub', 'SubUnchecked') and (a[0] == 'lin' or b[0] == 'lin'):
            r = self.norm(st, sub(a, b))
            if op == 'SubWithOverflow':
                lo, hi = self.bounds(st, r)
                flag = ('b', False) if lo is not None and lo >= 0 else ('c', ('lcmp', 'Lt', r, ('i', 0)))
                return ('tup', (sub(a, b), flag))
            return sub(a, b)
        return super().binop(st, op, a, b)

    def assume(self, st, cond):
        k = cond[0]
        if k == 'lcmp':
            return self.compare(st, cond[1], cond[2], cond[3])
        if k == 'chin':
            return self.split(st, cond[1], cond[2])
        if k == 'cheq':
            a, b = cond[1], cond[2]
            m = self.cls(st, a) & self.cls(st, b)
            if not m:
                return [(st, False)]
            single = m & (m - 1) == 0 and m < (1 << 128)
            f = st.facts.get(cond)
            if f is not None:
                return [(st, f)]
            if single and self.cls(st, a) == m and self.cls(st, b) == m:
                return [(st, True)]
            s2 = self.refine(self.refine(st, a, m), b, m).fact(cond, True)
            return [(s2, True), (st.fact(cond, False), False)]
        if k == 'chpart':
            f = st.facts.get(cond)
            if f is not None:
                return [(st, f)]
            s2 = self.refine(st, cond[1], chars_of(cond[2]))
            return ([] if s2 is None else [(s2.fact(cond, True), True)]) + [(st.fact(cond, False), False)]
        return super().assume(st, cond)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        if v[0] == 'chr':
            res, left = [], st
            for val, b in t[2]:
                if val >= 128:
                    for s2, x in self.assume(left, ('chpart', v[1], chr(val))):
                        if x:
                            res.append((s2, b))
                        else:
                            left = s2
                    continue
                m = 1 << val
                s2 = self.refine(left, v[1], m)
                if s2 is not None:
                    res.append((s2, b))
                left = self.refine(left, v[1], ALL & ~m)
                if left is None:
                    return res
            if t[3] is not None:
                res.append((left, t[3]))
            return res
        if v[0] == 'lin':
            res, left = [], [st]
            for val, b in t[2]:
                nxt = []
                for s in left:
                    for s2, e in self.compare(s, 'Eq', v, ('i', val)):
                        (res.append((s2, b)) if e else nxt.append(s2))
                left = nxt
            if t[3] is not None:
                res += [(s, t[3]) for s in left]
            return res
        return super().switch(st, fr, t)

    def eq(self, st, a, b, depth=0):
        a, b = self.strip(st, a), self.strip(st, b)
        if isnum(a) and isnum(b):
            return self.compare(st, 'Eq', a, b)
        for p, q in ((a, b), (b, a)):
            if p[0] == 'chr' and q[0] == 'ch':
                return self.branch(st, self.chcmp('Eq', p[1], q[1], False))
            if p[0] == 'txt' and q[0] == 's' and lit_of(q) is not None:
                return self.match_lit(st, p, lit_of(q))
        if a[0] == 'chr' and b[0] == 'chr':
            return self.branch(st, self.sym_arith(st, 'Eq', a, b))
        if a[0] == 'txt' and b[0] == 'txt':
            if self.canonbid(st, a[1]) == self.canonbid(st, b[1]) and self.canonbid(st, a[2]) == self.canonbid(st, b[2]):
                return [(st, True)]
        return super().eq(st, a, b, depth)

    def match_prefix(self, st, txt, w):
        """[(state, boundary after w)] of the texts that begin with w (refined to that)"""
        res = [(st, txt[1])]
        for c in w:
            m = atom(c)
            nxt = []
            for s, b in res:
                for s2, cid, nb in self.front(s, b, txt[2]):
                    if cid is None:
                        continue
                    s3 = self.refine(s2, cid, m if m is not None else chars_of(c))
                    if s3 is not None:
                        nxt.append((s3, nb))
            res = nxt
        return res

    def match_lit(self, st, txt, w):
        key = ('tne', self.canonbid(st, txt[1]), self.canonbid(st, txt[2]))
        no = st.facts.get(key, frozenset())
        if w in no:
            return [(st, False)]
        yes = []
        certain = len(w) < 40
        for s, b in self.match_prefix(st, txt, w):
            for s2, cid, nb in self.front(s, b, txt[2]):
                if cid is None:
                    yes.append((s2, True))
        out = list(yes)
        if not (len(yes) == 1 and yes[0][0].mem[D] == st.mem[D] and self.samecls(yes[0][0], st)):
            out.append((st.fact(key, no | {w}) if yes else st, False))
        return out

    def samecls(self, a, b):
        return all(b.facts.get(k) == v for k, v in a.facts.items() if k[0] == 'cls')

    # ------------------------------------------------------------ loops
    def loop_body(self, name, body, h):
        """blocks of the natural loop with head h"""
        r = self._nested.get((name, h))
        if r is None:
            bl = body['blocks']
            preds = {}
            for i, b in enumerate(bl):
                if b is not None:
                    for x in self.succs(b):
                        preds.setdefault(x, []).append(i)
            free, front = {0}, [0] if h != 0 else []
            while front:
                for x in self.succs(bl[front.pop()]):
                    if x != h and x not in free and bl[x] is not None:
                        free.add(x)
                        front.append(x)
            r, front = {h}, [u for u in preds.get(h, ()) if u not in free or h == 0]
            r |= set(front)
            while front:
                x = front.pop()
                if x == h:
                    continue
                for y in preds.get(x, ()):
                    if y not in r:
                        r.add(y)
                        front.append(y)
            r = self._nested[(name, h)] = frozenset(r)
        return r

    def livein(self, name, body):
        r = self._livein.get(name)
        if r is None:
            r = self._livein[name] = liveness(body)
        return r

    def prune(self, st, fr, bb):
        """drop what the rest of this function cannot use any more"""
        live = self.livein(fr.name, fr.body)[bb]
        roots = [k for k in st.mem if not (k[0] in ('L', 'T') and k[1] == fr.fid) or (k[0] == 'L' and k[2] in live)]
        seen = set(roots)
        while roots:
            r = roots.pop()
            for x in refs_in(st.mem.get(r), set()):
                if x not in seen and x in st.mem:
                    seen.add(x)
                    roots.append(x)
        s = st.copy()
        for k in list(s.mem):
            if k not in seen:
                del s.mem[k]
        return self.fold(s)

    def loop_head(self, st, fr, bb, vis):
        if D not in st.mem:
            return None
        if vis.pop('skip', None) == bb:
            return None
        st = self.prune(st, fr, bb)
        loop = self.loop_body(fr.name, fr.body, bb)
        for x in loop & fr.heads - {bb}:
            for k in (('hyp', x), ('hist', x), x):
                vis.pop(k, None)
        hyps = vis.get(('hyp', bb), ())
        hist = vis.get(('hist', bb), ())

        def step(H, hid, within=False):
            v2 = dict(vis)
            if within:
                v2['within'] = loop
            v2[('hyp', bb)] = hyps + ((hid, H),)
            v2[('hist', bb)] = ()
            v2['skip'] = bb
            v2[bb] = 0
            return self.run(H, fr, bb, v2)
        key = (bb, tuple(h[0] for k, v in sorted(((k, v) for k, v in vis.items() if isinstance(k, tuple) and k[0] == 'hyp')) for h in v), vis.get('within'))
        memo = fr.stable.setdefault(key, [])
        r = self.arrive(st, hyps, hist, step, 'loop in ' + fr.name, memo)
        if r is None:
            vis[('hist', bb)] = hist + (st,)
            return st
        return r

    def arrive(self, st, hyps, hist, step, where, memo):
        if self.unroll:
            for P in hist:
                if P.mem == st.mem:
                    return [self.stuck(st, where)]
            return None
        for hid, H in reversed(hyps):
            try:
                self.gen(H, st)
                return [('back', st, ('lex', hid))]
            except NoGen:
                pass
        for H in memo:
            if H[0] == 'H' and self.covers(H[1], st) or H[0] == '=' and H[1].mem == st.mem and H[1].und == st.und and self.holds(H[1], st):
                return []       # explored
        for P in reversed(hist):
            if P.mem == st.mem:
                return [self.stuck(st, where)]
            try:
                H = self.gen(P, st, first=True)
            except NoGen as e:
                self.lastnogen = str(e)
                continue
            strict = len(hist) < self.peel
            if strict and tops(H) > tops(P):
                continue
            r = self.fix(H, step, where, memo, strict)
            if r is not None:
                return r
        memo.append(('=', st))
        return None

    def stuck(self, st, where):
        if st.und or tops(st):
            return ('undet', st, where + ' may not progress')
        return ('panic', st, ('loop', where))

    def covers(self, H, st):
        if any(u not in H.und for u in st.und):
            return False
        if H.mem != st.mem:
            try:
                G = self.gen(H, st)
            except NoGen:
                return False
            if self.canon(G) != self.canon(H):
                return False
        return self.holds(H, st)

    def holds(self, H, st):
        """what H assumes is true in st"""
        ids = {s[1] for s in H.mem[D][1] if s[0] != 'e'}
        for k, v in H.facts.items():
            if k[0] in ('open', 'cands'):
                continue
            if k[0] == 'cls':
                if k[1] in ids and self.cls(st, k[1]) & ~v:
                    return False
            elif k[0] == 'tne':
                if v - st.facts.get(k, frozenset()):
                    return False
            elif k == ('ge0',):
                if set(v) - set(st.facts.get(k, ())):
                    return False
            elif st.facts.get(k) != v:
                return False
        return True

    def fix(self, H, step, where, memo, strict=False):
        self.loops[where] = self.loops.get(where, 0) + 1
        t0 = tops(H)
        for rnd in range(self.maxfix):
            hid = self.fresh('H')
            outs = step(H, hid, True)
            backs = [o for o in outs if o[0] == 'back' and o[2] == ('lex', hid)]
            H2 = H
            stuck = []
            for o in backs:
                if o[1].mem == H.mem:
                    stuck.append(self.stuck(o[1], where))
                    continue
                try:
                    H2 = self.gen(H2, o[1], H)
                except NoGen:
                    H2 = H2.doubt('loop not generalised')
                for u in o[1].und:
                    H2 = H2.doubt(u)
            if strict and tops(H2) > t0:
                return None
            if self.canon(H2) == self.canon(H) and H2.und == H.und and self.holds(H, H2):
                memo.append(('H', H))
                outs = stuck + step(H, hid)
                return [o for o in outs if not (o[0] == 'back' and o[2] == ('lex', hid))]
            H = H2
        return [('undet', H, where + ' did not stabilise')]

    def pyloop(self, st, step, where):
        """explores step from st: step(state) -> [('cont', state) | ('exit', outcome)]"""
        memos = {}

        def explore(s, hist, hyps):
            self.steps += 1
            if self.steps > self.budget or self.deadline and not self.steps & 255 and _time.time() > self.deadline:
                raise Budget('analysis budget exceeded in ' + where)

            def again(H, hid, within=False):
                outs = []
                for o in step(H):
                    if within and o[0] != 'cont':
                        continue
                    outs += explore(o[1], (), hyps + ((hid, H),)) if o[0] == 'cont' else [o[1]]
                return outs
            if len(hist) > (3000 if self.unroll else 30):
                return [('undet', s, where + ' not resolved')]
            r = self.arrive(s, hyps, hist, again, where, memos.setdefault(tuple(h[0] for h in hyps), []))
            if r is not None:
                return r
            if self.nodoubt and s.und:
                return [('undet', s, s.und[0])]
            outs = []
            for o in step(s):
                outs += explore(o[1], hist + (s,), hyps) if o[0] == 'cont' else [o[1]]
            return outs
        return explore(st, (), ())

    # ------------------------------------------------------------ generalisation
    def qat(self, doc, i):
        """(automaton, state) at boundary i"""
        bids, ss = doc
        if i < len(ss):
            s = ss[i]
            if s[0] == 'c':
                return s[2], s[3]
            if s[0] == 'r':
                return s[2], s[3]
            return s[1], s[2]
        s = ss[i - 1]
        return (s[2], s[4]) if s[0] == 'c' else (s[1], s[2]) if s[0] == 'e' else (None, None)

    def gen(self, P, S, base=None, first=False):
        """a state that covers P and S.  (base: the hypothesis that S was reached from, when P is a weakening of it)"""
        if base is not None and base is not P:
            # P was generalised from base: S is an instance in the names of base.  redo against base, then weaken by P
            G = self.gen(base, S)
            return self.weaken(G, P)
        pd, sd = P.mem[D], S.mem[D]
        pi = {b: i for i, b in enumerate(pd[0])}
        si = {b: i for i, b in enumerate(sd[0])}
        gP, gS = self.ghosts(P), self.ghosts(S)
        cur = set()
        nums = []

        def scan(a, b):
            if a == b or not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
                return
            if isnum(a) and isnum(b):
                na, nb = self.norm(P, a), self.norm(S, b)
                if na != nb:
                    nums.append((na, nb))
                return
            if a[0] == 'it' and b[0] == 'it' and a[1] == 'ci' == b[1]:
                for x, y in zip(a[3:], b[3:]):
                    if x != y:
                        if x not in pi or y not in si:
                            raise NoGen('cursor')
                        cur.add((x, y))
                return
            if a[0] == 'txt' and b[0] == 'txt':
                for x, y in zip(a[1:], b[1:]):
                    if x != y and x in pi and y in si:
                        cur.add((x, y))
                return
            if a[0] == 'adt' == b[0] and a[2] != b[2]:
                raise NoGen('variant')
            if a[0] == 'b' or b[0] == 'b':
                raise NoGen('flag')
            for x, y in zip(a, b):
                scan(x, y)
        for r in P.mem:
            if r != D and r in S.mem:
                scan(P.mem[r], S.mem[r])
        cur = {(x, y) for x, y in cur if not (x == y)}
        if not cur:
            raise NoGen('no progress through the text')
        m = max(cur, key=lambda p: (pi[p[0]], si[p[1]]))
        pairs = set(cur)
        for na, nb in nums:
            bp = [b for b in pd[0] if gP[b]['pos'] == na]
            bs = [b for b in sd[0] if gS[b]['pos'] == nb]
            if not bp or not bs:
                bp = [b for b in pd[0] if gP[b]['cpos'] == na]
                bs = [b for b in sd[0] if gS[b]['cpos'] == nb]
            if bp and bs:
                if any((x, y) in pairs for x in bp for y in bs):
                    continue
                x, y = bp[-1], bs[-1]
                if pi[x] <= pi[m[0]] and si[y] <= si[m[1]]:
                    pairs.add((x, y))
        pairs = sorted(pairs, key=lambda p: (pi[p[0]], si[p[1]]))
        if any(si[pairs[i][1]] > si[pairs[i + 1][1]] for i in range(len(pairs) - 1)):
            raise NoGen('order')
        if pairs[-1] != m:
            raise NoGen('order')
        start = pairs[0][0]
        # what earlier rounds passed by belongs to the same run
        while pi[start] > 0 and pd[1][pi[start] - 1][0] in ('r', 'e') and (start not in si or sd[1][si[start] - 1:si[start]] == pd[1][pi[start] - 1:pi[start]]):
            s = pd[1][pi[start] - 1]
            nxt = self.qat(sd, si[pairs[0][1]])[0] or self.qend(sd, si[pairs[0][1]], s[1] if s[0] == 'e' else s[2])[0]
            prev = pd[0][pi[start] - 1]
            if (s[1] if s[0] == 'e' else s[2]) != nxt or prev not in si or not self.passed(P, S, pairs, start, prev):
                break
            start = prev
        if start not in si or si[start] > si[pairs[0][1]]:
            raise NoGen('start')
        A, q0 = self.qat(sd, si[start])
        if A is None:
            raise NoGen('literal text')
        if self.qat(pd, pi[start]) != (A, q0):
            raise NoGen('automaton at start')
        for doc, idx, end in ((pd, pi[start], pi[m[0]]), (sd, si[start], si[m[1]])):
            for s in doc[1][idx:end]:
                if (s[1] if s[0] == 'e' else s[2]) != A:
                    raise NoGen('several automata')
        qs = []
        for x, y in pairs:
            a, b = self.qat(pd, pi[x]), self.qat(sd, si[y])
            # a boundary at the very end of the run: the state before it
            a = self.qend(pd, pi[x], A) if a[0] != A else a
            b = self.qend(sd, si[y], A) if b[0] != A else b
            if a != b:
                raise NoGen('automaton states differ')
            qs.append(a[1])
        # the tail of the run
        i = pi[m[0]]
        while i < len(pd[1]):
            s = pd[1][i]
            if (s[1] if s[0] == 'e' else s[2]) != A:
                break
            i += 1
            if s[0] in ('r', 'e'):
                break
        endbid = pd[0][i]
        if endbid not in si or si[endbid] < si[m[1]]:
            raise NoGen('end of run')
        F = set()
        for doc, lo, hi in ((pd, pi[m[0]], i), (sd, si[m[1]], si[endbid])):
            if lo == hi:
                q = self.qend(doc, lo, A)
                F.add(q[1])
                continue
            for s in doc[1][lo:hi]:
                if (s[1] if s[0] == 'e' else s[2]) != A:
                    raise NoGen('tail')
            s = doc[1][hi - 1]
            F |= {s[2]} if s[0] == 'e' else {s[4]} if s[0] == 'c' else set(s[4])
        # the new document
        H = St({}, {}, tuple(dict.fromkeys(P.und + S.und)))
        nb, ns = list(pd[0][:pi[start] + 1]), list(pd[1][:pi[start]])
        new = {}
        q = q0
        runs = []
        for (x, y), qn in zip(pairs, qs):
            r = self.mkrun(A, q, frozenset([qn]))
            runs.append(r)
            ns.append(r)
            new[(x, y)] = self.fresh('B')
            nb.append(new[(x, y)])
            q = qn
        if None in F:
            raise NoGen('tail state')
        r = self.mkrun(A, q, frozenset(F))
        runs.append(r)
        ns.append(r)
        nb += list(pd[0][i:])
        ns += list(pd[1][i:])
        H.mem[D] = (tuple(nb), tuple(ns))
        kept = set(nb)
        ids = {s[1] for s in ns if s[0] != 'e'}

        def unknown(t):
            """mentions a boundary or segment that is gone"""
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == 'B' and isinstance(t[1], int):
                    return t not in kept
                if len(t) == 2 and t[0] == 'C' and isinstance(t[1], int):
                    return t not in ids
                return any(unknown(x) for x in t)
            if isinstance(t, frozenset):
                return any(unknown(x) for x in t)
            return False
        gone_p = {s[1] for s in pd[1][pi[start]:i] if s[0] != 'e'}
        gone_s = {s[1] for s in sd[1][si[start]:si[endbid]] if s[0] != 'e'}
        gone = gone_p | gone_s

        def mentions_gone(t):
            if isinstance(t, tuple):
                return t in gone or any(mentions_gone(x) for x in t)
            return False
        par = None
        for k, v in S.facts.items():
            if k[0] == 'open' and v and sd[1][si[start]:] and v[0] == sd[1][si[start]]:
                pv = P.facts.get(k)
                if pv is None:
                    # P still has the run itself
                    if any(s[0] == 'r' and s[1] == k[1] for s in pd[1][pi[start]:pi[start] + 1]):
                        par = k[1]
                        break
                elif pv[:1] == pd[1][pi[start]:pi[start] + 1]:
                    par = k[1]
                    break
        for k, v in P.facts.items():
            if k in (('cands',),):
                continue
            if S.facts.get(k) == v and not unknown(k) and not (unknown(v) and k[0] != 'open'):
                if k[0] in ('open',) and (k[1] == par or any(s[1] in gone for s in v)):
                    continue
                if k[0] in ('sub', 'ne0', 'cands') and (mentions_gone(k) or mentions_gone(v)):
                    continue
                if k == ('ge0',):
                    v = tuple(x for x in v if not mentions_gone(x))
                H.facts[k] = v
        for k, v in P.facts.items():
            if k[0] == 'cls' and k[1] in ids:
                H.facts[k] = v
        if par is not None:
            H.facts[('open', par)] = tuple(runs)
        amap = {}
        for (x, y), n in new.items():
            amap[(x, y)] = n
        memo = {}

        def number(a, b):
            return number1(a, b)

        def number1(a, b):
            hv = self.hvof(a)
            na, nb_ = self.norm(P, a), self.norm(S, b)
            same = None
            if na == nb_ and not mentions_gone(na):
                same = na
            elif a == b and par is not None and a[0] == 'lin' and all(x[0] in ('bl', 'cl', 'nl') and (x[1] == par or x[1] not in gone) for x, _ in a[2]):
                same = a
            cands = []
            if hv and P.facts.get(('cands', hv[1])):
                for g, an, d in P.facts[('cands', hv[1])]:
                    # S's value with the variable replaced by this candidate
                    val = self.norm(S, subst(b, hv, add(self.ghost(P, g, an), d)))
                    if g == 'const':
                        if val == d:
                            cands.append((g, an, d))
                        continue
                    for (x, y), n in new.items():
                        if x == an and self.norm(S, add(gS[y][g], d)) == val:
                            cands.append((g, n, d))
                            break
                    else:
                        if an in kept and an in si and self.norm(S, add(gS[an][g], d)) == val:
                            cands.append((g, an, d))
            elif same is not None and not first:
                return same
            else:
                if same is not None:
                    cands.append(('const', None, same))
                for (x, y), n in reversed(list(new.items())):
                    for g in ('pos', 'cpos', 'nl', 'col'):
                        d1, d2 = self.norm(P, sub(na, gP[x][g])), self.norm(S, sub(nb_, gS[y][g]))
                        if d1 == d2 and not mentions_gone(d1):
                            cands.append((g, n, d1))
                if same is not None and len(cands) == 1:
                    return same
                if same is None:
                    for x in nb:
                        if x in pi and x in si and pi[x] >= i:
                            for g in ('pos', 'cpos', 'nl', 'col'):
                                d1, d2 = self.norm(P, sub(na, gP[x][g])), self.norm(S, sub(nb_, gS[x][g]))
                                if d1 == d2 and not mentions_gone(d1):
                                    cands.append((g, x, d1))
            if not cands:
                return top('counter changed in loop')
            v = ('hv', self.fresh('V'))
            H.facts[('cands', v[1])] = tuple(cands)
            return var(v)

        def bid(x, y):
            if (x, y) in new:
                return new[(x, y)]
            if x == y and x in kept:
                return x
            return None

        def walk(a, b):
            if isnum(a) and isnum(b):
                return number(a, b)
            if a[0] == 'it' == b[0] and a[1] == 'ci' == b[1] and a[2] == b[2]:
                r_ = tuple(bid(x, y) for x, y in zip(a[3:], b[3:]))
                if None in r_:
                    raise NoGen('cursor lost')
                return a[:3] + r_
            if a[0] == 'txt' == b[0]:
                r_ = tuple(bid(x, y) for x, y in zip(a[1:], b[1:]))
                return top('text changed in loop') if None in r_ else ('txt',) + r_
            if a == b and not unknown(a):
                return a
            if a[0] != b[0]:
                return top('changed in loop')
            k = a[0]
            if k == 'adt' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
                return a[:3] + (tuple(walk(x, y) for x, y in zip(a[3], b[3])),)
            if k == 'tup' and len(a[1]) == len(b[1]):
                return ('tup', tuple(walk(x, y) for x, y in zip(a[1], b[1])))
            if k == 'box':
                return ('box', walk(a[1], b[1]))
            if k == 'cl' and a[1] == b[1]:
                return ('cl', a[1], tuple(walk(x, y) for x, y in zip(a[2], b[2])))
            if k == 'part' and len(a[1]) == len(b[1]):
                return ('part', tuple((x[0], walk(x[1], y[1])) for x, y in zip(a[1], b[1])))
            if k == 'it' and a[1] == b[1] and len(a) == len(b):
                return a[:2] + tuple(walk(x, y) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x, y in zip(a[2:], b[2:]))
            if k == 'ref' and a[1][0] == 'V' and b[1][0] == 'V' and a[2] == b[2]:
                return ('ref', ('V', walk(a[1][1], b[1][1])), a[2])
            return top('changed in loop')
        for r in P.mem:
            if r != D and r in S.mem:
                H.mem[r] = walk(P.mem[r], S.mem[r])
        return H

    def passed(self, P, S, pairs, start, prev):
        """is the boundary `start` of no use but as one that moves?"""
        def used(t):
            if isinstance(t, tuple):
                return t == start or any(used(x) for x in t)
            return False
        return not any(used(v) for k, v in S.mem.items() if k != D)

    def qend(self, doc, i, A):
        """state of A reached at boundary i, where the text of A ends"""
        s = doc[1][i - 1]
        if s[0] == 'e' and s[1] == A:
            return A, s[2]
        if s[0] == 'c' and s[2] == A:
            return A, s[4]
        if s[0] == 'r' and s[2] == A and len(s[4]) == 1:
            return A, next(iter(s[4]))
        return None, None

    def weaken(self, G, P):
        """G and P have the same shape; keep the candidate relations that both have"""
        rg, rp = self.rename(G), self.rename(P)
        out = G.copy()

        def go(a, b):
            if isnum(a) and isnum(b):
                ha, hb = self.hvof(a), self.hvof(b)
                if ha and hb and G.facts.get(('cands', ha[1])) and P.facts.get(('cands', hb[1])):
                    ca = out.facts.get(('cands', ha[1]), ())
                    cb = {self.ren(c, rp) for c in P.facts.get(('cands', hb[1]), ())}
                    keep = tuple(c for c in ca if self.ren(c, rg) in cb)
                    if not keep:
                        return top('counter changed in loop')
                    out.facts[('cands', ha[1])] = keep
                    return a
                return a if self.ren(a, rg) == self.ren(b, rp) else top('counter changed in loop')
            if b[0] == 'top':
                return b
            if a[0] == 'adt' == b[0]:
                return a[:3] + (tuple(go(x, y) for x, y in zip(a[3], b[3])),)
            if a[0] == 'tup' == b[0]:
                return ('tup', tuple(go(x, y) for x, y in zip(a[1], b[1])))
            if a[0] == 'box' == b[0]:
                return ('box', go(a[1], b[1]))
            if a[0] == 'cl' == b[0]:
                return a[:2] + (tuple(go(x, y) for x, y in zip(a[2], b[2])),)
            return a
        for r in list(out.mem):
            if r != D and r in P.mem:
                out.mem[r] = go(out.mem[r], P.mem[r])
            elif r != D:
                del out.mem[r]
        for u in P.und:
            out = out.doubt(u)
        return out

    @staticmethod
    def hvof(a):
        if a[0] == 'lin' and a[1] == 0 and len(a[2]) == 1 and a[2][0][1] == 1 and a[2][0][0][0] == 'hv':
            return a[2][0][0]
        return None

    def rename(self, st):
        m = {}
        bids, ss = st.mem[D]
        for i, b in enumerate(bids):
            m[b] = ('B', -i - 1)
        n = 0
        for s in ss:
            if s[0] != 'e':
                n += 1
                m[s[1]] = (s[1][0], -n)
            else:
                m[s[3]] = ('R', 'e')
        return m

    def fold(self, st):
        """a run that was looked into just behind the last cursor, but nothing of which is used any more, becomes one again"""
        used = None
        st = st.copy()
        pos = {b: i for i, b in enumerate(st.mem[D][0])}
        cur = max([pos[c] for r, x in st.mem.items() if r != D for c in cursors(x) if c in pos], default=None)
        if cur is None:
            return st
        cur = st.mem[D][0][cur]
        again = True
        while again:
            again = False
            bids, ss = st.mem[D]
            at = {}
            for i, s in enumerate(ss):
                at[s[3] if s[0] == 'e' else s[1]] = i
            for k, v in list(st.facts.items()):
                if k[0] != 'open' or k[1] in at and ss[at[k[1]]][0] != 'e':
                    continue
                if v == ():
                    if k[1] not in at:
                        continue
                    lo = at[k[1]]
                    hi = lo + 1
                else:
                    if any(s[1] not in at or ss[at[s[1]]][0] == 'e' for s in v):
                        continue
                    lo, hi = at[v[0][1]], at[v[-1][1]] + 1
                    if [s[1] for s in ss[lo:hi] if s[0] != 'e'] != [s[1] for s in v]:
                        continue
                if used is None:
                    used = set()
                    for r, x in st.mem.items():
                        if r != D:
                            ids_in(x, used)
                    todo = [h for h in used if h[0] == 'V']
                    for h in todo:
                        for c in st.facts.get(('cands', h), ()):
                            ids_in(c, used)
                if any(b in used for b in bids[lo + 1:hi]) or any(s[1] in used for s in v) or any(ss[i][0] == 'e' and ss[i][3] in used for i in range(lo, hi) if v != ()):
                    continue
                if bids[lo] != cur or len(v) > 2 or any(ss[i][0] == 'e' for i in range(lo, hi)) and v != ():
                    continue
                A, q, F = self.runs[k[1]]
                gone = {s[1] for s in v} | set(bids[lo + 1:hi])
                st.mem[D] = (bids[:lo + 1] + bids[hi:], ss[:lo] + (('r', k[1], A, q, F),) + ss[hi:])
                for f, w in list(st.facts.items()):
                    if f == k or f[0] != 'open' and (mentions(f, gone) or f[0] != 'ge0' and mentions(w, gone)):
                        del st.facts[f]
                    elif f == ('ge0',):
                        st.facts[f] = tuple(x for x in w if not mentions(x, gone))
                again = True
                break
        return st

    def ren(self, t, m):
        if isinstance(t, tuple):
            if t in m:
                return m[t]
            return tuple(self.ren(x, m) for x in t)
        if isinstance(t, frozenset):
            return frozenset(self.ren(x, m) for x in t)
        return t

    def canon(self, st):
        m = self.rename(st)
        for k, v in st.facts.items():
            if k[0] == 'cands':
                m[('hv', k[1])] = ('hv', tuple(sorted((self.ren(c, m) for c in v), key=repr)))
        mem = []
        for r in sorted(st.mem, key=repr):
            v = st.mem[r]
            if r == D:
                v = (v[0], tuple(s if s[0] != 'r' else ('r', s[1], s[2], s[3], tuple(sorted(s[4], key=repr))) for s in v[1]))
            mem.append((r, self.ren(v, m)))
        return repr(mem)

    # ------------------------------------------------------------ calls
    def call(self, st, c, args, site, k=None, term=None):
        path, decl = strip_generics(c['path']), strip_generics(c['decl'])
        f = LM.get(path) or LM.get(decl) or LM.get(decl.rsplit('::', 1)[-1] if 'Iterator::' in decl or 'char::methods' in decl else None)
        if f is not None:
            r = f(self, st, args, c, site)
            if r is not NotImplemented:
                return r
        return super().call(st, c, args, site, k, term)

    def pull(self, st, it, k):
        if it[1] == 'ci':
            out = []
            kind, cur, end, base = it[2:]
            if cur[0] == 'lost':
                return [('undet', st, 'cursor lost: ' + str(cur[1]))]
            for s2, cid, nb in self.front(st, cur, end):
                if cid is None:
                    out += k(s2, it, None)
                else:
                    v = ('chr', cid)
                    if kind == 'idx':
                        v = ('tup', (self.norm(s2, sub(self.ghost(s2, 'pos', cur), self.ghost(s2, 'pos', base))), v))
                    out += k(s2, ('it', 'ci', kind, nb, end, base), v)
            return out
        return super().pull(st, it, k)


def chars_of(c):
    """the atom that a character beyond ASCII belongs to"""
    import unicodedata
    n = len(c.encode())
    cat = unicodedata.category(c)
    k = 'al' if cat == 'Ll' else 'aL' if cat == 'Lu' else 'a' if cat[0] == 'L' else 'n' if cat[0] == 'N' else 'w' if c.isspace() else ''
    for i, (e, w, kk) in enumerate(NONASCII):
        if e == c:
            return 1 << (128 + i)
    for i, (e, w, kk) in enumerate(NONASCII):
        if w == n and kk == k:
            return 1 << (128 + i)
    return ALL & ~ASCII & WIDTH[n]


def cursors(t):
    if isinstance(t, tuple):
        if len(t) == 6 and t[0] == 'it' and t[1] == 'ci':
            yield t[3]
        else:
            for x in t:
                if isinstance(x, tuple):
                    yield from cursors(x)


def mentions(t, ids):
    if isinstance(t, tuple):
        return t in ids or any(mentions(x, ids) for x in t)
    if isinstance(t, frozenset):
        return any(mentions(x, ids) for x in t)
    return False


def ids_in(t, acc):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('B', 'C', 'R', 'V') and isinstance(t[1], int):
            acc.add(t)
            return
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                ids_in(x, acc)
    elif isinstance(t, frozenset):
        for x in t:
            ids_in(x, acc)


def tops(st):
    def n(v):
        if isinstance(v, tuple):
            return 1 if v and v[0] == 'top' else sum(n(x) for x in v)
        return 0
    return sum(n(v) for k, v in st.mem.items() if k != D)


def subst(v, x, by):
    c, d = parts(v)
    n = d.pop(x, 0)
    return add(mklin(c, d), by, n)


def refs_in(v, acc):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'ref' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('L', 'T'):
            acc.add(v[1])
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                refs_in(x, acc)
    elif isinstance(v, frozenset):
        for x in v:
            refs_in(x, acc)
    return acc


def places(x, acc):
    """locals mentioned"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
            acc.add(x[0])
            for e in x[1]:
                if isinstance(e, list) and e and e[0] == 'index':
                    acc.add(e[1])
            return acc
        for y in x:
            if isinstance(y, list):
                places(y, acc)
    return acc


def liveness(body):
    bl = body['blocks']
    n = len(bl)
    gen, kill = [set() for _ in bl], [set() for _ in bl]
    for i, b in enumerate(bl):
        if b is None:
            continue
        g, kl = set(), set()

        def use(s):
            g.update(x for x in s if x not in kl)
        for s in b['st']:
            if s[0] == 'assign':
                use(places(s[2], set()))
                if s[1][1]:
                    use(places([s[1]], set()))
                else:
                    kl.add(s[1][0])
            elif s[0] == 'dead':
                kl.add(s[1])
            else:
                use(places(s, set()))
        t = b['t']
        if t[0] == 'call':
            use(places([t[1]], set()) | places([t[2]], set()))
            if t[3][1]:
                use(places([t[3]], set()))
            else:
                kl.add(t[3][0])
        elif t[0] == 'return':
            use({0})
        elif t[0] == 'drop':
            pass
        else:
            use(places(t, set()))
        gen[i], kill[i] = g, kl
    live = [set() for _ in bl]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            if bl[i] is None:
                continue
            out = set()
            for s in Interp.succs(bl[i]):
                out |= live[s]
            new = gen[i] | (out - kill[i])
            if new != live[i]:
                live[i] = new
                ch = True
    return live


# ------------------------------------------------------------------ regular expressions
class Rx:
    """leftmost-first matching of an anchored expression as a machine over atoms"""
    cache = {}

    def __init__(self, pat):
        self.prog = []
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = sre_parse.parse(pat)
        self.flags = p.state.flags
        self.icase = bool(self.flags & 2)
        self.dotall = bool(self.flags & 16)
        self.code(list(p))
        self.emit('match')
        self.memo = {}
        self.start = self.close([0], True)

    def emit(self, *x):
        self.prog.append(list(x))
        return len(self.prog) - 1

    def fold(self, m):
        if self.icase:
            up = (m & UPPER) << 32
            lo = (m & LOWER) >> 32
            m |= up | lo
        return m

    def set_mask(self, items):
        neg = False
        m = 0
        for op, a in items:
            if op is sre.NEGATE:
                neg = True
            elif op is sre.LITERAL:
                m |= atom(chr(a)) if a < 128 else chars_of(chr(a))
            elif op is sre.RANGE:
                for i in range(a[0], min(a[1], 127) + 1):
                    m |= 1 << i
                for i, (e, w, k) in enumerate(NONASCII):
                    if a[0] <= ord(e) <= a[1]:
                        m |= 1 << (128 + i)
            elif op is sre.CATEGORY:
                m |= self.category(a)
            else:
                raise ValueError('set ' + str(op))
        m = self.fold(m)
        return ALL & ~m if neg else m

    def category(self, a):
        s = str(a)
        m = NUMERIC if 'DIGIT' in s else ALPHA | NUMERIC | chars('_') if 'WORD' in s else WS
        return ALL & ~m if 'NOT' in s else m

    def code(self, seq):
        for op, a in seq:
            if op is sre.LITERAL:
                self.emit('ch', self.fold(atom(chr(a)) if a < 128 else chars_of(chr(a))))
            elif op is sre.NOT_LITERAL:
                self.emit('ch', ALL & ~self.fold(atom(chr(a)) if a < 128 else chars_of(chr(a))))
            elif op is sre.ANY:
                self.emit('ch', ALL if self.dotall else ALL & ~NL)
            elif op is sre.IN:
                self.emit('ch', self.set_mask(a))
            elif op is sre.AT:
                n = str(a)
                self.emit('begin' if 'BEGINNING' in n else 'end' if 'END' in n else 'bad')
                if self.prog[-1][0] == 'bad' or 'LINE' in n:
                    raise ValueError('assertion')
            elif op is sre.SUBPATTERN:
                self.code(list(a[-1]))
            elif op is sre.BRANCH:
                ends = []
                alts = a[1]
                for i, alt in enumerate(alts):
                    if i < len(alts) - 1:
                        s = self.emit('split', None, None)
                        self.prog[s][1] = len(self.prog)
                        self.code(list(alt))
                        ends.append(self.emit('jmp', None))
                        self.prog[s][2] = len(self.prog)
                    else:
                        self.code(list(alt))
                for e in ends:
                    self.prog[e][1] = len(self.prog)
            elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
                lo, hi, sub_ = a
                greedy = op is sre.MAX_REPEAT
                for _ in range(lo):
                    self.code(list(sub_))
                if hi is sre.MAXREPEAT:
                    s = self.emit('split', None, None)
                    b = len(self.prog)
                    self.code(list(sub_))
                    self.emit('jmp', s)
                    e = len(self.prog)
                    self.prog[s][1:] = [b, e] if greedy else [e, b]
                else:
                    if hi - lo > 700:
                        raise ValueError('repeat')
                    ss = []
                    for _ in range(hi - lo):
                        s = self.emit('split', None, None)
                        ss.append((s, len(self.prog)))
                        self.code(list(sub_))
                    e = len(self.prog)
                    for s, b in ss:
                        self.prog[s][1:] = [b, e] if greedy else [e, b]
            else:
                raise ValueError(str(op))

    def close(self, pcs, begin=False):
        """ordered states; cut behind a match"""
        out, seen = [], set()

        def go(pc):
            if pc in seen:
                return False
            seen.add(pc)
            i = self.prog[pc]
            if i[0] == 'jmp':
                return go(i[1])
            if i[0] == 'split':
                return go(i[1]) or go(i[2])
            if i[0] == 'begin':
                return go(pc + 1) if begin else False
            out.append(pc)
            return i[0] == 'match'
        for pc in pcs:
            if go(pc):
                break
        return tuple(out)

    def matched(self, d):
        return bool(d) and self.prog[d[-1]][0] == 'match'

    def at_end(self, d):
        """does it match at the end of the text, here?"""
        for pc in d:
            k = self.prog[pc][0]
            if k == 'match':
                return True
            if k == 'end':
                seen = set()

                def go(p):
                    if p in seen:
                        return False
                    seen.add(p)
                    i = self.prog[p]
                    if i[0] == 'match':
                        return True
                    if i[0] == 'jmp':
                        return go(i[1])
                    if i[0] == 'split':
                        return go(i[1]) or go(i[2])
                    if i[0] == 'end':
                        return go(p + 1)
                    return False
                if go(pc + 1):
                    return True
        return False

    def steps(self, d):
        """{state: mask}"""
        r = self.memo.get(d)
        if r is None:
            r = {}
            masks = [(self.prog[pc][1], pc) for pc in d if self.prog[pc][0] == 'ch']
            blocks = [ALL]
            for m, pc in masks:
                nb = []
                for b in blocks:
                    if b & m:
                        nb.append(b & m)
                    if b & ~m:
                        nb.append(b & ~m)
                blocks = nb
            for b in blocks:
                t = self.close([pc + 1 for m, pc in masks if m & b])
                r[t] = r.get(t, 0) | b
            self.memo[d] = r
        return r


def rx(pat):
    r = Rx.cache.get(pat)
    if r is None:
        try:
            r = Rx(pat)
        except Exception as e:
            r = str(e)
        Rx.cache[pat] = r
    return r


class Prod:
    pass


PRODS = {}


def product(A, pat, R):
    """automaton of pairs (state of A, state of the matcher, does it match after this character)"""
    key = ('x', A, pat)
    if key not in AUT:
        AUT[key] = LazyProduct(A, R, key)
    return key


class LazyProduct(Aut):
    def __init__(self, A, R, name):
        self.A, self.R, self.name = A, R, name
        self.tr = {}
        self._live, self._min, self._mask = {}, {}, {}

    def expand(self, q):
        seen, front = set(self.tr), [q]
        while front:
            x = front.pop()
            if x in self.tr:
                continue
            a, d, fl = x
            ts = []
            for m, p in AUT[self.A].step(a):
                for d2, m2 in self.R.steps(d).items():
                    if m & m2:
                        ts.append((m & m2, (p, d2, self.R.matched(d2))))
            self.tr[x] = ts
            front += [p for m, p in ts]
        self._live, self._min, self._mask = {}, {}, {}

    def step(self, q):
        if q not in self.tr:
            self.expand(q)
        return self.tr[q]


def restrict_aut(A, name, keep):
    key = (name, A)
    if key not in AUT:
        a = AUT[A]
        AUT[key] = Aut({q: [(m, p) for m, p in ts if keep(p)] for q, ts in a.tr.items()}, key)
    return key


def rx_find(I, st, pat, txt, start=0):
    """leftmost-first match at the beginning of the text: [(state, boundary of its end | None)]"""
    R = rx(pat)
    if isinstance(R, str):
        return None
    work = [(st, txt[1], R.start, txt[1] if R.matched(R.start) else None)]
    out = []
    steps = 0
    while work:
        steps += 1
        if steps > 3000:
            return None
        s, b, d, last = work.pop()
        bids, ss = s.mem[D]
        i, j = bids.index(b), bids.index(txt[2])
        while i < j and ss[i][0] == 'e':
            i += 1
        if i >= j:
            out.append((s, bids[j] if R.at_end(d) else last))
            continue
        if not d or all(R.prog[pc][0] == 'match' for pc in d):
            out.append((s, last))
            continue
        sg = ss[i]
        if sg[0] == 'c':
            for d2, m in R.steps(d).items():
                s2 = I.refine(s, sg[1], m)
                if s2 is not None:
                    work.append((s2, bids[i + 1], d2, bids[i + 1] if R.matched(d2) else last))
            continue
        _, rid, A, q, F = sg
        mask = AUT[A].mask(q, F)
        trivial = all(not (m & mask) or d2 == d for d2, m in R.steps(d).items())
        if trivial and (not R.matched(d) or last == bids[i] or I.canonbid(s, last) == I.canonbid(s, bids[i])):
            work.append((s, bids[i + 1], d, bids[i + 1] if R.matched(d) else last))
            continue
        # the run splits by what the matcher does in it
        X = product(A, pat, R)
        x0 = (q, d, False)
        AUT[X].expand(x0)
        N = restrict_aut_dyn(X, 'nomatch')
        fin = {}
        seen, front = {x0}, [x0]
        while front:
            x = front.pop()
            for m, p in AUT[X].step(x):
                if p not in seen:
                    seen.add(p)
                    front.append(p)
        for x in seen:
            if x[0] in F:
                fin.setdefault(x[1], set()).add(x)
        flagged = [x for x in seen if x[2]]
        for d2, xs in sorted(fin.items(), key=repr):
            # no match inside
            f0 = frozenset(x for x in xs if not x[2] or x == x0)
            tgt = frozenset(x for x in f0)
            if tgt and x0 in AUT[N].live(tgt):
                r1 = I.mkrun(N, x0, tgt)
                s2 = I.replace(s, i, (r1,), ())
                work.append((s2, bids[i + 1], d2, last))
            for y in flagged:
                tgt = frozenset(x for x in xs if not x[2] or x == y)
                if not tgt or y not in AUT[N].live(tgt):
                    continue
                nb = I.fresh('B')
                if tgt == frozenset([y]) and not any(p in AUT[N].live(tgt) for m, p in AUT[N].step(y)):
                    s2 = I.replace(s, i, (I.mkrun(X, x0, frozenset([y])),), ())
                    work.append((s2, bids[i + 1], d2, bids[i + 1]))
                else:
                    s2 = I.replace(s, i, (I.mkrun(X, x0, frozenset([y])), I.mkrun(N, y, tgt)), (nb,))
                    work.append((s2, bids[i + 1], d2, nb))
    return out


def restrict_aut_dyn(X, name):
    key = (name, X)
    AUT[key] = Aut({q: [(m, p) for m, p in ts if not p[2]] for q, ts in AUT[X].tr.items()}, key)
    return key


# ------------------------------------------------------------------ models
LM = {}


def model(*names):
    def deco(f):
        for n in names:
            LM[n] = f
        return f
    return deco


def charof(I, st, v):
    v = I.strip(st, v)
    return v


for _n, _m in PRED.items():
    def _f(I, st, args, c, site, m=_m, name=_n):
        v = I.strip(st, args[0])
        if v[0] == 'chr':
            return [('ret', s, ('b', b)) for s, b in I.split(st, v[1], m)]
        if v[0] == 'ch':
            x = atom(v[1])
            return ret(st, ('b', bool((x if x is not None else chars_of(v[1])) & m)))
        return NotImplemented
    LM['core::char::methods::' + _n] = _f


@model('core::char::methods::is_digit', 'core::char::methods::to_digit')
def is_digit(I, st, args, c, site):
    v, r = I.strip(st, args[0]), args[1]
    if v[0] == 'chr' and r[0] == 'i':
        m = DIGIT if r[1] == 10 else HEX if r[1] == 16 else None
        if m is not None and c['path'].endswith('is_digit'):
            return [('ret', s, ('b', b)) for s, b in I.split(st, v[1], m)]
        if m is not None:
            return [('ret', s, opt(top('digit')) if b else opt(None)) for s, b in I.split(st, v[1], m)]
    return NotImplemented


@model('core::char::methods::len_utf8')
def len_utf8(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] == 'ch':
        return ret(st, ('i', len(v[1].encode())))
    if v[0] == 'chr':
        return ret(st, I.nvar(st, ('bl', v[1]), 0))
    return NotImplemented


@model('core::char::methods::eq_ignore_ascii_case')
def eq_icase(I, st, args, c, site):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    if a[0] == 'ch':
        a, b = b, a
    if a[0] == 'chr' and b[0] == 'ch' and ord(b[1]) < 128:
        return [('ret', s, ('b', x)) for s, x in I.split(st, a[1], chars(b[1].lower() + b[1].upper()))]
    return NotImplemented


@model('core::str::len', 'alloc::string::String::len')
def str_len(I, st, args, c, site):
    v = I.strip(st, args[0])
    return ret(st, I.length(st, v)) if v[0] == 'txt' else NotImplemented


@model('core::str::is_empty', 'alloc::string::String::is_empty')
def str_is_empty(I, st, args, c, site):
    v = I.strip(st, args[0])
    return ret(st, I.seq_empty(st, v)) if v[0] == 'txt' else NotImplemented


@model('core::str::chars', 'core::str::char_indices')
def str_chars(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'txt':
        return NotImplemented
    return ret(st, ('it', 'ci', 'idx' if c['path'].endswith('char_indices') else 'chars', v[1], v[2], v[1]))


def is_ci(v):
    return v[0] == 'it' and v[1] == 'ci'


def source_ci(v):
    while v[0] == 'it':
        if v[1] == 'ci':
            return True
        if len(v) > 2 and isinstance(v[2], tuple) and v[2] and v[2][0] == 'it':
            v = v[2]
        else:
            return False
    return False


@model('core::iter::traits::iterator::Iterator::peekable', 'core::iter::traits::iterator::Iterator::fuse')
def peekable(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    return ret(st, it) if is_ci(it) and place is None else NotImplemented


@model('core::iter::adapters::peekable::Peekable::peek')
def peek(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    if not is_ci(it):
        return NotImplemented
    return I.pull(st, it, lambda s, it2, item: [('ret', s, opt(None if item is None else ('ref', ('V', item), ())))])


@model('core::iter::adapters::peekable::Peekable::next_if', 'core::iter::adapters::peekable::Peekable::next_if_eq')
def next_if(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    if not is_ci(it) or place is None:
        return NotImplemented
    eq = c['path'].endswith('_eq')

    def k(s, it2, item):
        if item is None:
            return [('ret', s, opt(None))]
        if eq:
            bs = [('ret', s2, b) for s2, b in I.eq(s, item, args[1])]
        else:
            bs = []
            for o in I.invoke(s, args[1], [('ref', ('V', item), ())], (site, 'next_if')):
                if o[0] != 'ret':
                    bs.append(o)
                    continue
                for s2, b in I.branch(o[1], o[2][0]):
                    bs.append(('ret', s2, b))
        out = []
        for o in bs:
            if o[0] != 'ret':
                out.append(o)
            elif o[2]:
                s2 = o[1].copy()
                I.write(s2, place[0], place[1], it2)
                out.append(('ret', s2, opt(item)))
            else:
                out.append(('ret', o[1], opt(None)))
        return out
    return I.pull(st, it, k)


@model('core::iter::traits::iterator::Iterator::next')
def it_next(I, st, args, c, site):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and f.get('body'):
        return NotImplemented
    it, place = as_it(I, st, args[0])
    if not source_ci(it):
        return NotImplemented
    return pull_from(I, st, args[0], lambda s, item: [('ret', s, opt(item))])


@model('core::iter::traits::iterator::Iterator::nth', 'core::iter::traits::iterator::Iterator::advance_by')
def nth(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    if not is_ci(it) or not isnum(args[1]):
        return NotImplemented
    kind, cur, end, base = it[2:]
    if cur[0] == 'lost':
        return [('undet', st, 'cursor lost')]
    out = []
    for s, b in I.seek(st, cur, args[1], 'cpos', end):
        s = s.copy()
        if b[0] == 'lost':
            if place:
                I.write(s, place[0], place[1], ('it', 'ci', kind, b, end, base))
            out.append(('ret', s, top('nth')))
            continue
        if b == ('end',):
            b = end
        it2 = ('it', 'ci', kind, b, end, base)

        def k(s2, it3, item):
            s2 = s2.copy()
            if place:
                I.write(s2, place[0], place[1], it3)
            return [('ret', s2, opt(item))]
        out += I.pull(s, it2, k)
    return out


@model('core::iter::traits::iterator::Iterator::skip', 'core::iter::traits::iterator::Iterator::by_ref', 'core::iter::traits::collect::IntoIterator::into_iter')
def it_skip(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    if not is_ci(it):
        return NotImplemented
    if c['decl'].endswith('by_ref'):
        return ret(st, args[0])
    if c['decl'].endswith('into_iter'):
        return ret(st, args[0])
    if place is None and isnum(args[1]):
        return [('ret', s, it[:3] + (it[4] if b == ('end',) else b,) + it[4:]) for s, b in I.seek(st, it[3], args[1], 'cpos', it[4])]
    return NotImplemented


@model('core::str::iter::Chars::as_str', 'core::str::iter::CharIndices::as_str')
def as_str(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    return ret(st, ('txt', it[3], it[4])) if is_ci(it) else NotImplemented


@model('core::str::iter::CharIndices::offset')
def ci_offset(I, st, args, c, site):
    it, place = as_it(I, st, args[0])
    return ret(st, I.norm(st, sub(I.ghost(st, 'pos', it[3]), I.ghost(st, 'pos', it[5])))) if is_ci(it) else NotImplemented


# --- internal iteration
def consume(I, st, args, site, name, init, body, done):
    """runs over an iterator whose source is a text.  body(state, item) -> [('cont', st) | ('exit', outcome)]"""
    it, place = as_it(I, st, args[0])
    if not source_ci(it):
        return NotImplemented
    root = ('T', I.fid(0, site, name), 'it')
    acc = ('T', root[1], 'acc')
    s0 = st.copy()
    s0.mem[root] = it
    s0.mem[acc] = init

    def fin(s, o):
        """write the iterator back and drop the temporaries"""
        if o[0] not in ('ret',):
            return o
        s2 = o[1].copy()
        cur = s2.mem.pop(root, None)
        s2.mem.pop(acc, None)
        if place and cur is not None:
            I.write(s2, place[0], place[1], cur)
        return ('ret', s2) + o[2:]

    def step(s):
        def k(s2, it2, item):
            s2 = s2.copy()
            s2.mem[root] = it2
            if item is None:
                return [('exit', fin(s2, o)) for o in done(s2, acc)]
            return [(kk, fin(None, x) if kk == 'exit' else x) for kk, x in body(s2, acc, item)]
        out = []
        for o in I.pull(s, s.mem[root], k):
            out.append(o if o[0] in ('cont', 'exit') else ('exit', o))
        return out
    return I.pyloop(s0, step, name + ' over a text')


def itmodel(name):
    return model('core::iter::traits::iterator::Iterator::' + name)


def _counting(I, s, acc, by):
    s = s.copy()
    s.mem[acc] = add(s.mem[acc], by) if isnum(s.mem[acc]) and isnum(by) else top('count')
    return s


@itmodel('count')
def it_count(I, st, args, c, site):
    return consume(I, st, args, site, 'count', ('i', 0), lambda s, acc, item: [('cont', _counting(I, s, acc, ('i', 1)))],
                   lambda s, acc: ret(s, I.norm(s, s.mem[acc])))


@itmodel('sum')
def it_sum(I, st, args, c, site):
    return consume(I, st, args, site, 'sum', ('i', 0), lambda s, acc, item: [('cont', _counting(I, s, acc, I.strip(s, item)))],
                   lambda s, acc: ret(s, I.norm(s, s.mem[acc])))


@itmodel('last')
def it_last(I, st, args, c, site):
    def body(s, acc, item):
        s = s.copy()
        s.mem[acc] = opt(item)
        return [('cont', s)]
    return consume(I, st, args, site, 'last', opt(None), body, lambda s, acc: ret(s, s.mem[acc]))


def truth(I, s, f, item, tag):
    out = []
    for o in I.invoke(s, f, [item], tag):
        if o[0] != 'ret':
            out.append((o, None))
            continue
        for s2, b in I.branch(o[1], o[2][0]):
            out.append((('ret', s2), b))
    return out


def pred_loop(kind):
    @itmodel(kind)
    def f(I, st, args, c, site):
        it, place = as_it(I, st, args[0])
        if not source_ci(it):
            return NotImplemented
        if place is None:
            pass

        def body(s, acc, item):
            out = []
            arg = ('ref', ('V', item), ()) if kind in ('find',) else item
            for o, b in truth(I, s, args[1], arg, (site, kind)):
                if b is None:
                    out.append(('exit', o))
                    continue
                s2 = o[1]
                stop = b if kind != 'all' else not b
                if stop:
                    v = {'find': lambda: opt(item), 'any': lambda: ('b', True), 'all': lambda: ('b', False), 'position': lambda: opt(I.norm(s2, s2.mem[acc]))}[kind]()
                    out.append(('exit', ('ret', s2, v)))
                else:
                    out.append(('cont', _counting(I, s2, acc, ('i', 1)) if kind == 'position' else s2))
            return out
        return consume(I, st, args, site, kind, ('i', 0), body,
                       lambda s, acc: ret(s, opt(None) if kind in ('find', 'position') else ('b', kind == 'all')))


for _k in ('find', 'any', 'all', 'position'):
    pred_loop(_k)


@itmodel('find_map')
def it_find_map(I, st, args, c, site):
    def body(s, acc, item):
        out = []
        for o in I.invoke(s, args[1], [item], (site, 'find_map')):
            if o[0] != 'ret':
                out.append(('exit', o))
                continue
            for s2, sm, x in I.opt_cases(o[1], o[2][0]):
                out.append(('exit', ('ret', s2, opt(x))) if sm else ('cont', s2))
        return out
    return consume(I, st, args, site, 'find_map', ('i', 0), body, lambda s, acc: ret(s, opt(None)))


@itmodel('for_each')
def it_for_each(I, st, args, c, site):
    fn = ('T', I.fid(0, site, 'for_each'), 'fn')
    s0 = st.copy()
    s0.mem[fn] = args[1]

    def body(s, acc, item):
        out = []
        for o in I.invoke(s, s.mem[fn], [item], (site, 'for_each')):
            if o[0] != 'ret':
                out.append(('exit', o))
                continue
            s2 = o[1].copy()
            s2.mem[fn] = o[2][1]
            out.append(('cont', s2))
        return out
    return consume(I, s0, args, site, 'for_each', ('i', 0), body, lambda s, acc: ret(s, UNIT))


@itmodel('fold')
def it_fold(I, st, args, c, site):
    def body(s, acc, item):
        out = []
        for o in I.invoke(s, args[2], [s.mem[acc], item], (site, 'fold')):
            if o[0] != 'ret':
                out.append(('exit', o))
                continue
            s2 = o[1].copy()
            s2.mem[acc] = o[2][0]
            out.append(('cont', s2))
        return out
    return consume(I, st, args, site, 'fold', args[1], body, lambda s, acc: ret(s, s.mem[acc]))


@itmodel('collect')
def it_collect(I, st, args, c, site):
    return consume(I, st, args, site, 'collect', ('i', 0), lambda s, acc, item: [('cont', s)], lambda s, acc: ret(s, top('collected text')))


@itmodel('max')
def it_max(I, st, args, c, site):
    return consume(I, st, args, site, 'max', ('i', 0), lambda s, acc, item: [('cont', s)], lambda s, acc: ret(s, top('maximum')))


# --- slicing
def slice_txt(I, st, v, lo, hi, site_panic):
    """[(state, txt) | panic]"""
    out = []

    def cut(s, off):
        """boundary at an offset from the start of v"""
        if off is None:
            return [(s, None)]
        return I.seek(s, v[1], off, 'pos', v[2])
    for s, a in cut(st, lo):
        if a is not None and a[0] in ('lost', 'end'):
            out.append(bad_slice(s, a, 'start'))
            continue
        b0 = v[1] if a is None else a
        if hi is None:
            out.append(('ret', s, ('txt', b0, v[2])))
            continue
        for s2, b in cut(s, hi):
            if b[0] in ('lost', 'end'):
                out.append(bad_slice(s2, b, 'end'))
                continue
            d = I.norm(s2, sub(I.ghost(s2, 'pos', b), I.ghost(s2, 'pos', b0)))
            for s3, neg in I.compare(s2, 'Lt', d, ('i', 0)):
                if neg:
                    out.append(('panic', s3, ('slice', 'start of a slice behind its end')))
                else:
                    out.append(('ret', s3, ('txt', b0, b)))
    return out


def bad_slice(s, a, which):
    if a[0] == 'end':
        return ('panic', s, ('slice', which + ' of a slice beyond the text'))
    if a[1] == 'inside a character':
        return ('panic', s, ('slice', which + ' of a slice inside a character'))
    if a[1] == 'before the start':
        return ('panic', s, ('slice', which + ' of a slice before the text'))
    return ('undet', s, 'offset of a slice not known (%s)' % (a[1],))


def range_of(I, st, r):
    """(lo, hi) of a range value; hi exclusive"""
    r = I.strip(st, r)
    if r[0] != 'adt':
        return None
    p = I.ty(r[1]).get('path') or r[1]
    f = r[3]
    n = p.rsplit('::', 1)[-1].split('<')[0]
    if n == 'Range' and len(f) == 2:
        lo, hi = f
    elif n == 'RangeFrom':
        lo, hi = f[0], None
    elif n == 'RangeTo':
        lo, hi = None, f[0]
    elif n == 'RangeFull':
        lo, hi = None, None
    elif n == 'RangeInclusive':
        lo, hi = f[0], add(f[1], ('i', 1)) if isnum(f[1]) else None
        if hi is None:
            return None
    elif n == 'RangeToInclusive':
        lo, hi = None, add(f[0], ('i', 1)) if isnum(f[0]) else None
        if hi is None:
            return None
    else:
        return None
    if any(x is not None and not isnum(x) for x in (lo, hi)):
        return None
    return lo, hi


@model('core::str::traits::index', 'core::ops::index::Index::index', 'core::str::get', 'core::str::get_unchecked')
def str_index(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'txt':
        return NotImplemented
    r = range_of(I, st, args[1])
    if r is None:
        return [('undet', st, 'range of a slice not known')]
    outs = slice_txt(I, st, v, r[0], r[1], site)
    if strip_generics(c['path']).endswith('::get'):
        return [('ret', o[1], opt(o[2])) if o[0] == 'ret' else ('ret', o[1], opt(None)) if o[0] == 'panic' else o for o in outs]
    return outs


@model('core::str::split_at')
def split_at(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'txt' or not isnum(args[1]):
        return NotImplemented
    return [('ret', o[1], ('tup', (o[2], ('txt', o[2][2], v[2])))) if o[0] == 'ret' else o for o in slice_txt(I, st, v, None, args[1], site)]


@model('core::str::is_char_boundary')
def char_boundary(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'txt' or not isnum(args[1]):
        return NotImplemented
    return [('ret', s, ('b', b[0] not in ('lost', 'end'))) for s, b in I.seek(st, v[1], args[1], 'pos', v[2])]


# --- searching
def matcher(I, st, p):
    """a character pattern: f(state, cid) -> [(state, bool)]; or a literal text"""
    p = I.strip(st, p)
    if p[0] == 'ch':
        return lambda s, cid: I.branch(s, I.chcmp('Eq', cid, p[1], False))
    if p[0] == 'vec' and all(x[0] == 'el' and x[1][0] == 'ch' and ord(x[1][1]) < 128 for x in p[1]):
        m = chars(''.join(x[1][1] for x in p[1]))
        return lambda s, cid: I.split(s, cid, m)
    if p[0] in ('cl', 'fn'):
        def f(s, cid):
            out = []
            for o, b in truth(I, s, p, ('chr', cid), ('pattern',)):
                out.append((o[1], b) if b is not None else (o[1].doubt('pattern'), False))
            return out
        return f
    return None


@model('core::str::starts_with', 'core::str::strip_prefix')
def starts_with(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'txt':
        return NotImplemented
    strip = strip_generics(c['path']).endswith('strip_prefix')
    p = I.strip(st, args[1])
    l = lit_of(p) if p[0] == 's' else None
    if l is not None:
        out = []
        hits = I.match_prefix(st, v, l)
        for s, b in hits:
            out.append(('ret', s, opt(('txt', b, v[2])) if strip else ('b', True)))
        sure = len(hits) == 1 and hits[0][0].mem[D] == st.mem[D] and I.samecls(hits[0][0], st)
        if not sure:
            # texts that do not begin so: look at the characters one after the other
            work = [(st, v[1], 0)]
            while work:
                s, b, n = work.pop()
                if n == len(l):
                    continue
                for s2, cid, nb in I.front(s, b, v[2]):
                    if cid is None:
                        out.append(('ret', s2, opt(None) if strip else ('b', False)))
                        continue
                    for s3, e in I.branch(s2, I.chcmp('Eq', cid, l[n], False)):
                        if e:
                            work.append((s3, nb, n + 1))
                        else:
                            out.append(('ret', s3, opt(None) if strip else ('b', False)))
        return out
    m = matcher(I, st, p)
    if m is None:
        return NotImplemented
    out = []
    for s, cid, nb in I.front(st, v[1], v[2]):
        if cid is None:
            out.append(('ret', s, opt(None) if strip else ('b', False)))
            continue
        for s2, b in m(s, cid):
            out.append(('ret', s2, (opt(('txt', nb, v[2])) if b else opt(None)) if strip else ('b', b)))
    return out


@model('core::str::ends_with', 'core::str::strip_suffix')
def ends_with(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'txt':
        return NotImplemented
    p = I.strip(st, args[1])
    l = lit_of(p) if p[0] == 's' else None
    strip = strip_generics(c['path']).endswith('strip_suffix')
    if l is None or len(l) != 1:
        m = matcher(I, st, p)
        if m is None:
            return NotImplemented
    else:
        m = matcher(I, st, ('ch', l))
    out = []
    for s, e in I.compare(st, 'Eq', I.length(st, v), ('i', 0)):
        if e:
            out.append(('ret', s, opt(None) if strip else ('b', False)))
            continue
        for s1, cid, nb in I.back(s, v[2]):
            if cid is None:
                continue
            for s2, b in m(s1, cid):
                out.append(('ret', s2, (opt(('txt', v[1], nb)) if b else opt(None)) if strip else ('b', b)))
    return out


def search(I, st, v, m, site, name):
    """first character for which m holds: outcomes with value ('found', cid, boundary before, boundary after) or None"""
    root = ('T', I.fid(0, site, name), 'it')
    s0 = st.copy()
    s0.mem[root] = ('it', 'ci', 'idx', v[1], v[2], v[1])

    def step(s):
        out = []
        cur = s.mem[root][3]
        for s2, cid, nb in I.front(s, cur, v[2]):
            if cid is None:
                s3 = s2.copy()
                del s3.mem[root]
                out.append(('exit', ('ret', s3, None)))
                continue
            for s3, b in m(s2, cid):
                s3 = s3.copy()
                if b:
                    del s3.mem[root]
                    out.append(('exit', ('ret', s3, (cid, cur, nb))))
                else:
                    s3.mem[root] = ('it', 'ci', 'idx', nb, v[2], v[1])
                    out.append(('cont', s3))
        return out
    return I.pyloop(s0, step, name + ' in a text')


@model('core::str::find', 'core::str::split_once', 'core::str::contains')
def str_find(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'txt':
        return NotImplemented
    p = I.strip(st, args[1])
    kind = strip_generics(c['path']).rsplit('::', 1)[1]
    if p[0] == 's' and lit_of(p) is not None and len(lit_of(p)) == 1:
        p = ('ch', lit_of(p))
    if p[0] == 's' and lit_of(p) is not None:
        return find_lit(I, st, v, lit_of(p), site, kind)
    m = matcher(I, st, p)
    if m is None:
        return NotImplemented
    out = []
    for o in search(I, st, v, m, site, kind):
        if o[0] != 'ret':
            out.append(o)
        elif o[2] is None:
            out.append(('ret', o[1], ('b', False) if kind == 'contains' else opt(None)))
        else:
            s, (cid, b, nb) = o[1], o[2]
            if kind == 'contains':
                r = ('b', True)
            elif kind == 'find':
                r = opt(I.norm(s, sub(I.ghost(s, 'pos', b), I.ghost(s, 'pos', v[1]))))
            else:
                r = opt(('tup', (('txt', v[1], b), ('txt', nb, v[2]))))
            out.append(('ret', s, r))
    return out


def find_lit(I, st, v, l, site, kind):
    """first occurrence of a literal of several characters (scan, look at what follows)"""
    root = ('T', I.fid(0, site, 'find'), 'it')
    s0 = st.copy()
    s0.mem[root] = ('it', 'ci', 'idx', v[1], v[2], v[1])

    def step(s):
        out = []
        cur = s.mem[root][3]
        work = [(s, cur, 0)]
        while work:
            s1, b, n = work.pop()
            if n == len(l):
                s3 = s1.copy()
                del s3.mem[root]
                if kind == 'contains':
                    r = ('b', True)
                elif kind == 'find':
                    r = opt(I.norm(s3, sub(I.ghost(s3, 'pos', cur), I.ghost(s3, 'pos', v[1]))))
                else:
                    r = opt(('tup', (('txt', v[1], cur), ('txt', b, v[2]))))
                out.append(('exit', ('ret', s3, r)))
                continue
            for s2, cid, nb in I.front(s1, b, v[2]):
                if cid is None:
                    if n == 0:
                        s3 = s2.copy()
                        del s3.mem[root]
                        out.append(('exit', ('ret', s3, ('b', False) if kind == 'contains' else opt(None))))
                    else:
                        nxt(out, s2)
                    continue
                for s3, e in I.branch(s2, I.chcmp('Eq', cid, l[n], False)):
                    if e:
                        work.append((s3, nb, n + 1))
                    else:
                        nxt(out, s3)
        return out

    def nxt(out, s):
        for s2, cid, nb in I.front(s, s.mem[root][3], v[2]):
            s3 = s2.copy()
            s3.mem[root] = ('it', 'ci', 'idx', nb, v[2], v[1])
            out.append(('cont', s3))
    return I.pyloop(s0, step, 'find in a text')


@model('core::str::trim_start_matches', 'core::str::trim_start')
def trim_start(I, st, args, c, site):
    v = I.strip(st, args[0])
    if v[0] != 'txt':
        return NotImplemented
    if len(args) == 1:
        m = lambda s, cid: I.split(s, cid, WS)
    else:
        m = matcher(I, st, args[1])
    if m is None:
        return NotImplemented
    out = []
    for o in search(I, st, v, lambda s, cid: [(s2, not b) for s2, b in m(s, cid)], site, 'trim_start'):
        if o[0] == 'ret':
            out.append(('ret', o[1], ('txt', v[2], v[2]) if o[2] is None else ('txt', o[2][1], v[2])))
        else:
            out.append(o)
    return out


# --- owned texts
@model('alloc::string::ToString::to_string', 'alloc::string::String::from', 'core::convert::From::from', 'core::convert::Into::into', 'alloc::string::String::into_boxed_str',
       'alloc::borrow::ToOwned::to_owned', 'core::clone::Clone::clone', 'core::ops::deref::Deref::deref', 'alloc::string::String::as_str', 'core::convert::AsRef::as_ref')
def to_string(I, st, args, c, site):
    f = I.funcs.get(c['name'])
    if f and f.get('local') and f.get('body'):
        return NotImplemented
    v = I.strip(st, args[0])
    if v[0] == 'txt':
        return ret(st, v)
    if is_ci(v) and c['decl'].endswith('clone'):
        return ret(st, v)
    if v[0] == 'chr':
        return ret(st, ('s', (('disp', v),)))
    if v[0] in ('rx', 'rxm') and not c['decl'].endswith('to_string'):
        return ret(st, v if v[0] == 'rx' else v)
    return NotImplemented


@model('alloc::string::String::push', 'alloc::string::String::push_str')
def push(I, st, args, c, site):
    a = args[0]
    v = I.strip(st, args[1])
    if a[0] == 'ref' and (v[0] in ('chr', 'txt') or I.load(st, a)[0] == 'top') and D in st.mem:
        s = st.copy()
        I.write(s, a[1], a[2], top('text built in a loop'))
        return ret(s, UNIT)
    return NotImplemented


# --- regular expressions
@model('regex::regex::string::Regex::new')
def rx_new(I, st, args, c, site):
    p = I.strip(st, args[0])
    l = lit_of(p) if p[0] == 's' else None
    if l is None:
        return ret(st.doubt('expression not known'), ok(top('Regex')))
    if isinstance(rx(l), str):
        return ret(st.doubt('expression not understood: ' + l), ok(top('Regex')))
    return ret(st, ok(('rx', l)))


@model('regex::regex::string::Regex::find', 'regex::regex::string::Regex::is_match', 'regex::regex::string::Regex::shortest_match')
def rx_find_model(I, st, args, c, site):
    r, v = I.strip(st, args[0]), I.strip(st, args[1])
    kind = strip_generics(c['path']).rsplit('::', 1)[1]
    if r[0] != 'rx' or v[0] != 'txt' or kind == 'shortest_match':
        return ret(st.doubt('regular expression'), top('match'))
    outs = []
    anchored = r[1].replace('(?i)', '').replace('(?x)', '').startswith('^') or r[1].startswith('\\A')
    todo = [(st, v[1], 0)]
    while todo:
        s, b, n = todo.pop()
        if n > 2:
            outs.append(('undet', s, 'unanchored expression'))
            continue
        res = rx_find(I, s, r[1], ('txt', b, v[2]))
        if res is None:
            return ret(st.doubt('regular expression'), top('match'))
        for s2, e in res:
            if e is not None:
                outs.append(('ret', s2, ('b', True) if kind == 'is_match' else opt(('rxm', v[1], b, e))))
            elif anchored:
                outs.append(('ret', s2, ('b', False) if kind == 'is_match' else opt(None)))
            else:
                for s3, cid, nb in I.front(s2, b, v[2]):
                    if cid is None:
                        outs.append(('ret', s3, ('b', False) if kind == 'is_match' else opt(None)))
                    else:
                        todo.append((s3, nb, n + 1))
    return outs


@model('regex::regex::string::Match::end', 'regex::regex::string::Match::start', 'regex::regex::string::Match::as_str', 'regex::regex::string::Match::len',
       'regex::regex::string::Match::range', 'regex::regex::string::Match::is_empty')
def rxm(I, st, args, c, site):
    m = I.strip(st, args[0])
    if m[0] != 'rxm':
        return NotImplemented
    k = strip_generics(c['path']).rsplit('::', 1)[1]
    _, v0, b, e = m
    p = lambda x, y: I.norm(st, sub(I.ghost(st, 'pos', y), I.ghost(st, 'pos', x)))
    if k == 'range':
        return ret(st, ('adt', 'core::ops::range::Range<usize>', 0, (p(v0, b), p(v0, e))))
    if k == 'is_empty':
        return ret(st, ('c', ('lcmp', 'Eq', p(b, e), ('i', 0))))
    return ret(st, {'end': lambda: p(v0, e), 'start': lambda: p(v0, b), 'as_str': lambda: ('txt', b, e), 'len': lambda: p(b, e)}[k]())


# --- numbers
@model('core::num::saturating_sub', 'core::num::checked_sub', 'core::num::wrapping_sub', 'core::num::wrapping_add', 'core::num::saturating_add', 'core::num::checked_add')
def num_op(I, st, args, c, site):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    if not (isnum(a) and isnum(b)):
        return NotImplemented
    k = strip_generics(c['path']).rsplit('::', 1)[1]
    if k.endswith('add'):
        r = add(a, b)
        return ret(st, opt(r) if k.startswith('checked') else r)
    out = []
    for s, neg in I.compare(st, 'Lt', a, b):
        if neg:
            out.append(('ret', s, opt(None) if k.startswith('checked') else ('i', 0) if k.startswith('sat') else top('wrapped')))
        else:
            out.append(('ret', s, opt(sub(a, b)) if k.startswith('checked') else sub(a, b)))
    return out


@model('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max')
def num_min(I, st, args, c, site):
    a, b = I.strip(st, args[0]), I.strip(st, args[1])
    if not (isnum(a) and isnum(b)) or a[0] == 'i' == b[0]:
        return NotImplemented
    mn = strip_generics(c['path']).endswith('min')
    return [('ret', s, (a if lt else b) if mn else (b if lt else a)) for s, lt in I.compare(st, 'Lt', a, b)]


# --- lazily made statics (the value is what the initialiser makes)
@model('std::sync::once_lock::OnceLock::get_or_init', 'once_cell::sync::OnceCell::get_or_init', 'core::cell::once::OnceCell::get_or_init')
def get_or_init(I, st, args, c, site):
    out = []
    for o in I.invoke(st, args[1], [], (site, 'get_or_init')):
        if o[0] != 'ret':
            out.append(o)
        else:
            out.append(('ret', o[1], ('ref', ('V', o[2][0]), ())))
    return out
