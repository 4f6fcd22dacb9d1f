"""C05, C06, C07, C16 (and the token part of C01): the scanner on texts of arbitrary characters.

The text is a sequence of characters, each any member of a set of character classes.  `Lexer::new` and `next` are
interpreted until the end is reported twice; what is returned on each path is compared with the tokens that the
specification below gives for the same text."""
import itertools, random, json, re, os, time
from interp import Budget
from lexdom import *
import lexdom, lexmore
from gramspec import SPELL

KEYWORDS = {w: k for w, k in SPELL.items() if w[0].isalpha()}
DOUBLE = ['=>', '->', '<-', ':=']
SINGLE = '+*;:.|[](){},&@=<-_'
SYMBOLS = {w: k for w, k in SPELL.items() if not w[0].isalpha()}
WITHTEXT = {'ByStrWithSize', 'Number', 'HexNumber', 'Identifier', 'TemplateIdentifier', 'CustomIdentifier', 'SpecialIdentifier', 'StringLiteral'}
NONALNUM = (ALPHA | NUMERIC) & ~ASCII
ONE = {c: chars(c) for c in map(chr, range(128))}


# ------------------------------------------------------------------ the specification
class Text:
    """a text of character sets; questions about characters are decided by a list of answers"""

    def __init__(self, masks, answers):
        self.m, self.a, self.k = list(masks), answers, 0
        self.n = len(masks)

    def has(self, i, mask):
        if i >= self.n:
            return False
        m = self.m[i]
        if not m & mask:
            return False
        if not m & ~mask:
            return True
        if self.k == len(self.a):
            self.a.append(True)
        v = self.a[self.k]
        self.k += 1
        self.m[i] = m & mask if v else m & ~mask
        return v


def cases(masks, f):
    """[(masks, result)] of f over all ways the questions about the text can be answered"""
    out, answers = [], []
    while True:
        t = Text(masks, answers)
        r = f(t)
        out.append((tuple(t.m), r))
        del answers[t.k:]
        while answers and not answers[-1]:
            answers.pop()
        if not answers:
            return out
        answers[-1] = False


def spec(t, lines=True):
    """tokens [(kinds, start, end)] of the text; end is None where no token is specified from here on"""
    out, i = [], 0
    while True:
        while True:
            if i >= t.n:
                break
            if t.has(i, WS):
                i += 1
            elif t.has(i, ONE['(']) and t.has(i + 1, ONE['*']):
                j = i + 2
                while j < t.n and not (t.has(j, ONE['*']) and t.has(j + 1, ONE[')'])):
                    j += 1
                if j >= t.n:
                    out.append((('Unknown',), i, None))
                    return place(t, out, lines)
                i = j + 2
            else:
                break
        if i >= t.n:
            return place(t, out, lines)
        k, e = token(t, i)
        out.append((k, i, e))
        if e is None:
            return place(t, out, lines)
        i = e


def place(t, out, lines):
    """splits the characters before each token into newlines and others"""
    if lines and out:
        for i in range(out[-1][1]):
            t.has(i, NL)
    return out


def token(t, i):
    if t.has(i, LOWER | UPPER):
        j = i + 1
        while t.has(j, WORD):
            j += 1
        cut = t.has(j, NONALNUM)
        up = t.has(i, UPPER)
        base = 'CustomIdentifier' if up else 'Identifier'
        for w, k in KEYWORDS.items():
            if len(w) == j - i and all(t.has(i + n, ONE[c]) for n, c in enumerate(w)):
                return ((k, base), None) if cut else ((k,), j)
        if up and j - i > 5 and all(t.has(i + n, ONE[c]) for n, c in enumerate('ByStr')) and all(t.has(n, DIGIT) for n in range(i + 5, j)):
            return (('ByStrWithSize', base), None) if cut else (('ByStrWithSize',), j)
        return (base,), j
    if t.has(i, ONE['-']) and t.has(i + 1, DIGIT) or t.has(i, DIGIT):
        if t.has(i, ONE['0']) and t.has(i + 1, ONE['x'] | ONE['X']):
            j = i + 2
            while t.has(j, HEX) and t.has(j + 1, HEX):
                j += 2
            return ('HexNumber',), j
        j = i + 1
        while t.has(j, DIGIT):
            j += 1
        return ('Number',), j
    if t.has(i, ONE['-']) and t.has(i + 1, NUMERIC & ~ASCII):
        return ('Minus', 'Unknown'), None
    if t.has(i, ONE['"']):
        j, q = i + 1, False
        while j < t.n:
            if t.has(j, ONE['"']):
                return ('StringLiteral',), j + 1
            if t.has(j, ONE['\\']) and j + 1 < t.n:
                q = q or t.has(j + 1, ONE['"'])
                j += 1
            j += 1
        return ('StringLiteral', 'Unknown') if q else ('Unknown',), None
    if t.has(i, ONE["'"]):
        if not t.has(i + 1, UPPER):
            return ('Unknown',), None
        j = i + 2
        while t.has(j, WORD):
            j += 1
        return ('TemplateIdentifier',), j
    if t.has(i, ONE['_']):
        if t.has(i + 1, WORD):
            j = i + 2
            while t.has(j, WORD):
                j += 1
            return ('SpecialIdentifier',), j
        if t.has(i + 1, NONALNUM):
            return ('Underscore', 'SpecialIdentifier', 'Unknown'), None
        return ('Underscore',), i + 1
    for w in DOUBLE:
        if t.has(i, ONE[w[0]]) and t.has(i + 1, ONE[w[1]]):
            return (SYMBOLS[w],), i + 2
    for w in SINGLE:
        if w in SYMBOLS and t.has(i, ONE[w]):
            return (SYMBOLS[w],), i + 1
    return ('Unknown',), None


# ------------------------------------------------------------------ anchors
class Missing(Exception):
    pass


def anchors(mir):
    fs = [n for n in mir['funcs'] if 'parser::lexer::Lexer' in n]
    new = [n for n in fs if n.startswith('crate::parser::lexer::Lexer') and n.endswith('::new')]
    nxt = [n for n in fs if n.startswith('<crate::parser::lexer::Lexer') and n.endswith('Iterator>::next')]
    if not new or not nxt:
        raise Missing('Lexer::new or its Iterator::next not found')
    return new[0], nxt[0]


# ------------------------------------------------------------------ running the scanner
class Run:
    def __init__(self, mir, budget=400000):
        self.mir = mir
        self.new, self.next = anchors(mir)
        self.budget = budget
        self.deadline = None
        self.steps = 0
        self.unmodelled = {}

    def paths(self, segs, limit=4000, beyond=True):
        """[(kind, state, tokens, info)]: kind 'end' | 'panic' | 'loop' | 'more' | 'after' | 'undet'"""
        I = LexInterp(self.mir, budget=self.budget)
        self.I = I
        I.unroll, I.vislimit = True, 2000 + sum(len(x[1]) if x[0] == 'lit' else 1 for x in segs)
        I.nodoubt = True
        I.deadline = self.deadline
        st, marks = I.newdoc(St(), segs)
        txt = ('txt', marks[0], marks[-1])
        n = len(st.mem[D][1])
        out, work = [], []
        try:
            self.explore(I, st, txt, n, out, work, limit, beyond)
        except Budget as e:
            out.append(('undet', st, (), 'budget of the analysis exceeded'))
        self.steps += I.steps
        for k, v in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        return out

    def explore(self, I, st, txt, n, out, work, limit, beyond):
        LX = ('L', 0, 99)
        for o in I.exec_fn(st, self.new, [txt], 0, 0):
            if o[0] == 'ret':
                s = o[1].copy()
                s.mem[LX] = o[2]
                work.append((s, (), False))
            else:
                out.append(self.other(o, ()))
        while work:
            s, toks, ended = work.pop()
            if len(out) + len(work) > limit:
                out.append(('undet', s, toks, 'too many paths'))
                break
            for o in I.exec_fn(s, self.next, [('ref', LX, ())], 0, 0):
                if o[0] != 'ret':
                    out.append(self.other(o, toks))
                    continue
                r = o[2]
                if r[0] != 'adt' or 'Option' not in r[1]:
                    out.append(('undet', o[1], toks, 'result of next not known'))
                elif r[2] == 0:
                    if ended:
                        out.append(('end', o[1], toks, None))
                    else:
                        work.append((o[1], toks, True))
                elif ended:
                    out.append(('after', o[1], toks + (r[3][0],), None))
                elif len(toks) > n:
                    out.append(('more', o[1], toks + (r[3][0],), None))
                elif not beyond and any(self.unknown(I, t) for t in toks[-1:]):
                    out.append(('stop', o[1], toks + (r[3][0],), None))
                else:
                    work.append((o[1], toks + (r[3][0],), False))

    def unknown(self, I, v):
        """the item is the unknown token: what follows is not specified, the text is not accepted"""
        try:
            tok = v[3][0][1][1]
            return I.ty(tok[1])['variants'][tok[2]]['name'] == 'Unknown'
        except (IndexError, KeyError, TypeError):
            return False

    def other(self, o, toks):
        if o[0] == 'panic':
            if isinstance(o[2], tuple) and o[2] and o[2][0] == 'loop':
                return ('loop', o[1], toks, o[2][1])
            return ('panic', o[1], toks, o[2])
        return ('undet', o[1], toks, o[2])

    # -------------------------------------------------------------- concrete members of a path
    def witnesses(self, st, masks, rnd, tries=6):
        """texts of the path: (characters, state with these characters)"""
        I = self.I
        segs = st.mem[D][1]
        if any(s[0] == 'r' for s in segs):
            return
        cids = [s[1] for s in segs if s[0] == 'c']
        seen = set()
        for k in range(tries):
            pick = []
            for m in masks:
                ws = widths(m)
                w = ws[0] if k == 0 else ws[-1] if k == 1 else rnd.choice(ws)
                mm = m & WIDTH[w]
                if k == 0:
                    for pref in (LOWER, UPPER, DIGIT, PUNCT, chars(' \n'), ALL):
                        if mm & pref:
                            mm &= pref
                            break
                    b = mm & -mm
                else:
                    b = rnd.choice([1 << i for i in range(NA) if mm >> i & 1])
                pick.append(b)
            if tuple(pick) in seen:
                continue
            seen.add(tuple(pick))
            s = st.copy()
            for c, b in zip(cids, pick):
                s.facts[('cls', c)] = b
            text = ''.join(charof_atom(b) for b in pick)
            if self.consistent(s, text):
                yield text, s

    def consistent(self, s, text):
        I = self.I
        bids = s.mem[D][0]
        for k, v in s.facts.items():
            if k[0] == 'tne':
                a, b = self.at(s, k[1]), self.at(s, k[2])
                if text[a:b] in v:
                    return False
            elif k == ('ge0',):
                for x in v:
                    x = I.norm(s, x)
                    if x[0] != 'i' or x[1] < 0:
                        return False
            elif k[0] == 'ne0':
                x = I.norm(s, k[1])
                if x == ('i', 0) or x[0] != 'i':
                    return False
        return True

    def at(self, s, bid):
        """number of characters before a boundary"""
        bids, segs = s.mem[D]
        return sum(1 for x in segs[:bids.index(bid)] if x[0] == 'c')

    def value(self, s, v, text):
        """what v is in the text: int, str, tuple; None when not known"""
        I = self.I
        if isnum(v):
            r = I.norm(s, v)
            return r[1] if r[0] == 'i' else None
        if v[0] == 'txt':
            return text[self.at(s, v[1]):self.at(s, v[2])]
        if v[0] == 's':
            return lit_of(v)
        if v[0] in ('ref', 'box'):
            try:
                x = I.strip(s, v)
            except Exception:
                return None
            return self.value(s, x, text) if x != v else None
        if v[0] == 'ch':
            return v[1]
        if v[0] == 'tup':
            return tuple(self.value(s, x, text) for x in v[1])
        return None


def charof_atom(b):
    i = b.bit_length() - 1
    return chr(i) if i < 128 else NONASCII[i - 128][0]


def decode(R, s, v, text):
    """(start position dict, kind, text or None, end offset) of an item of the scanner, None when not known, 'err' for an error"""
    I = R.I
    if v[0] != 'adt' or not v[3]:
        return None
    if v[2] != 0:
        return 'err'
    t = v[3][0]
    if t[0] != 'tup' or len(t[1]) != 3:
        return None
    a, tok, b = t[1]

    def pos(p):
        if p[0] != 'adt':
            return None
        d = {f['name']: R.value(s, x, text) for f, x in zip(I.ty(p[1])['variants'][0]['fields'], p[3])}
        return d
    if tok[0] != 'adt':
        return None
    var = I.ty(tok[1])['variants'][tok[2]]
    txt = None
    if tok[3]:
        txt = R.value(s, tok[3][0], text)
        if txt is None:
            return None
    pa, pb = pos(a), pos(b)
    if pa is None or pb is None or None in pa.values() or None in pb.values():
        return None
    return pa, var['name'], txt, pb


def gap_ok(g):
    """whitespace and complete comments only"""
    i = 0
    while i < len(g):
        if g[i].isspace() and g[i] not in '\x1c\x1d\x1e\x1f':
            i += 1
        elif g.startswith('(*', i):
            j = g.find('*)', i + 2)
            if j < 0:
                return False
            i = j + 2
        else:
            return False
    return True


def show(s):
    return repr(s) if len(s) <= 60 else repr(s[:40]) + '..(%d characters)' % len(s)


def judge(R, path, rnd):
    """[(topic, message)] and (obligations, undetermined reason or None) for one path.
    topics: 'text', 'kind', 'pos', 'end', 'progress', 'panic'"""
    kind, st, toks, info = path
    I = R.I
    bad, n = [], 0
    if kind == 'undet':
        return bad, 1, str(info)[:160]
    if any(x[0] == 'r' for x in st.mem[D][1]):
        return bad, 1, 'text with runs'
    masks = [I.cls(st, s[1]) for s in st.mem[D][1] if s[0] == 'c']
    doubt = '; '.join(map(str, st.und))[:160] if st.und else None
    und = doubt
    for ms, want in cases(masks, spec):
        for text, s in R.witnesses(st, ms, rnd, 3):
            n += 1
            r = compare(R, s, kind, toks, info, text, want)
            if r is None:
                und = und or 'value not known'
            elif not doubt:
                bad += r
    return bad, max(n, 1), und


def compare(R, s, kind, toks, info, text, want):
    bad = []
    where = 'for the text ' + show(text)
    if kind == 'panic':
        return [('panic', '%s the scanner panics: %s' % (where, str(info)[:200]))]
    if kind == 'loop':
        return [('progress', '%s the scanner does not terminate: %s' % (where, info))]
    if kind == 'more':
        return [('progress', '%s there are more tokens than characters' % where)]
    if kind == 'after':
        return [('progress', '%s a token follows the reported end' % where)]
    off = [0]
    for c in text:
        off.append(off[-1] + len(c.encode('utf-8')))
    got = []
    for t in toks:
        d = decode(R, s, t, text)
        if d is None:
            return None
        if d == 'err':
            return [('kind', '%s the scanner returns an error item' % where)]
        got.append(d)
    last = 0
    for i, (kinds, a, e) in enumerate(want):
        exp = {'position': off[a], 'line': text[:a].count('\n'), 'column': off[a] - off[text.rfind('\n', 0, a) + 1]}
        if i >= len(got):
            what = show(text[a:e] if e is not None else text[a:])
            topics = ['text', 'kind']
            for tp in topics:
                bad.append((tp, '%s %s at offset %d is skipped (expected %s)' % (where, what, off[a], '/'.join(kinds))))
            return bad
        pa, k, tx, pb = got[i]
        if pa != exp:
            tps = ['pos']
            if pa['position'] != exp['position']:
                tps += ['text']
            for tp in tps:
                bad.append((tp, '%s token %d (%s) starts at %s, expected %s' % (where, i + 1, k, fmt(pa), fmt(exp))))
            if pa['position'] != exp['position']:
                return bad
        if k not in kinds:
            if k in WITHTEXT and tx is not None and len(kinds) == 1 and kinds[0] in WITHTEXT and e is not None and tx != text[a:e]:
                bad.append(('text', '%s token %d at offset %d is %s %s, expected %s' % (where, i + 1, off[a], k, show(tx), show(text[a:e]))))
            if 'Unknown' in kinds or k == 'Unknown':
                bad.append(('text', '%s token %d at offset %d is %s, expected %s' % (where, i + 1, off[a], k, '/'.join(kinds))))
            bad.append(('kind', '%s token %d at offset %d is %s%s, expected %s %s' % (where, i + 1, off[a], k, ' ' + show(tx) if tx is not None else '', '/'.join(kinds), show(text[a:e]) if e is not None else '')))
            return bad
        if e is None:
            return bad
        if k in WITHTEXT and tx != text[a:e]:
            for tp in ('text', 'kind'):
                bad.append((tp, '%s token %d at offset %d is %s with the text %s, expected %s' % (where, i + 1, off[a], k, show(tx), show(text[a:e]))))
            return bad
        if pb['position'] != off[e]:
            for tp in ('text', 'end'):
                bad.append((tp, '%s token %d (%s) at offset %d ends at offset %d, expected %d' % (where, i + 1, k, off[a], pb['position'], off[e])))
        elif '\n' not in text[a:e] and (pb['line'], pb['column']) != (exp['line'], exp['column'] + off[e] - off[a]):
            bad.append(('pos', '%s token %d (%s) at offset %d ends at %s, expected column %d of the same line' % (where, i + 1, k, off[a], fmt(pb), exp['column'] + off[e] - off[a])))
    if len(got) > len(want):
        pa, k, tx, pb = got[len(want)]
        for tp in ('text', 'kind'):
            bad.append((tp, '%s there is an unexpected token %s at offset %d' % (where, k, pa['position'])))
    return bad


def fmt(p):
    return 'offset %(position)s line %(line)s column %(column)s' % p


# ------------------------------------------------------------------ the texts that are analysed
def L(s):
    return ('lit', s)


def C(m, n=1):
    return [('ch', m)] * n


BODY = ASCII & ~chars('"\\\n*()') & PRED['is_ascii_graphic'] | chars(' ')


def arbitrary(n):
    """all texts of n characters, cut into cases by the first ones"""
    if n <= 1:
        return [C(ALL, n)]
    heads = [ALL & ~ASCII, WS & ASCII, LOWER, UPPER, DIGIT, ASCII & ~(WS | LOWER | UPPER | DIGIT | PUNCT)] + [ONE[c] for c in map(chr, range(33, 127)) if ONE[c] & PUNCT]
    if n <= 2:
        return [C(h) + C(ALL, n - 1) for h in heads]
    seconds = [ALL & ~ASCII, WS & ASCII, LOWER | UPPER | chars('_'), DIGIT, ASCII & ~(WS | LOWER | UPPER | DIGIT | chars('_'))]
    return [C(h) + C(k) + C(ALL, n - 2) for h in heads for k in seconds]


def tokens_alone():
    """one token of each shape, what may extend it and an arbitrary character behind"""
    out = []
    for w in SPELL:
        out += [[L(w)] + C(ALL), [L(w)] + C(WORD) + C(ALL), [L(w)]]
        out += [C(ALL) + [L(w)] + C(WS)]
    for k in (0, 1, 2, 3):
        out += [C(LOWER) + C(WORD, k) + C(ALL), C(UPPER) + C(WORD, k) + C(ALL), [L('_')] + C(WORD, k) + C(ALL), [L("'")] + C(UPPER) + C(WORD, k) + C(ALL), [L("'")] + C(ALL, k),
                C(DIGIT, k + 1) + C(ALL), [L('-')] + C(DIGIT, k) + C(ALL), [L('+')] + C(DIGIT, k) + C(ALL),
                [L('ByStr')] + C(WORD, k) + C(ALL), [L('ByStr')] + C(DIGIT, k) + C(ALL), [L('0x')] + C(ALL, min(k, 2)), [L('0X')] + C(HEX, k) + C(ALL), [L('0x')] + C(HEX, 2 * k) + C(ALL)]
    for k in (0, 1, 2):
        out += [[L('"')] + C(ALL, k) + [L('"')] + C(ALL), [L('"')] + C(ALL, k + 1), [L('"\\')] + C(ALL, k) + [L('"')] + C(ALL), [L('"')] + C(ALL, k) + [L('\\\\"')] + C(ALL), [L('"')] + C(ALL, k) + [L('\\""')] + C(ALL)]
        out += [[L('(*')] + C(ALL, k) + [L('*)')] + C(ALL), [L('(*')] + C(ALL, k + 1), [L('(**')] + C(ALL, k) + [L('**)')] + C(ALL), [L('(*(*')] + C(ALL, k) + [L('*)')] + C(ALL)]
    for a in SYMBOLS:
        for b in SYMBOLS:
            out.append([L(a + b)])
    return out


SOME = ['+', '=>', '-', '_', 'let', 'contract', 'Map', 'Event', 'ByStr', 'ByStr20', 'x', 'foo_1', 'Foo', '_x', "'A", '12', '-3', '0x1f', '"s"', '(', '*']
FEW = ['=', 'field', 'x', 'Foo', '12', '"t"']


def gaps():
    cm = lambda *b: [L('(*')] + [x for y in b for x in y] + [L('*)')]
    return [C(WS), C(WS, 2), C(WS, 3), cm(C(ALL)), cm(C(ALL, 2)), cm(C(ALL)) + C(WS), C(WS) + cm(C(ALL)) + C(WS), cm(C(ALL)) + cm(C(WS)), cm([L('*')], C(ALL)),
            [L('\n')] + C(WS) + [L('\n')] + C(WS), cm([L('\n')], C(ALL), [L('\n')]) + C(WS), [L('\r\n')] + C(WS), C(ALL & ~ASCII & WS) + C(WS)]


def positions():
    """tokens after white space, comments and other tokens, and these before an arbitrary character"""
    out = []
    for g in gaps():
        for t in SOME:
            out.append(g + [L(t + ' ')])
        out.append(C(LOWER) + g)
        out.append(g)
    firsts = [[L(t)] for t in SOME] + [[L('"')] + C(ALL & ~chars('"\\')) + C(ALL & ~chars('"\\')) + [L('"')], [L('"a\n')] + C(ALL & ~chars('"\\')) + [L('\n"')], [L('"\\"\u00e9"')], [L('"\\')] + C(NL | LOWER) + [L('"')]]
    mids = [C(WS), [L('\n')] + C(WS), [L(' (*')] + C(ALL) + [L('*)')], [L('\u00a0 ')], [L(' (*\u00e9\n\n*)\n')]]
    for a in firsts:
        for g in mids:
            for b in FEW:
                out.append(a + g + [L(b + '\n')])
    for a in firsts:
        for b in SOME:
            out.append(a + C(WS) + [L(b)])
    for a in FEW:
        for b in FEW:
            for c in FEW:
                out.append([L(a)] + C(WS) + [L(b)] + C(WS) + [L(c)])
    for a in firsts:
        for b in firsts[-4:]:
            out.append(a + [L('\n')] + b + [L('\n')] + [L('x')])
    return out


def long_texts(lengths):
    """texts of a given length whose characters the scanner need not tell apart"""
    out = []
    tail = [L(' y\n z')]
    for n in lengths:
        for c in ('x', 'X', '_', '7'):
            out.append([L(c * n)] + tail)
        out += [[L('x')] + C(WORD & ~chars('_'), 1) + [L('a' * n)] + tail, [L("'A" + 'b' * n)] + tail, [L('ByStr' + '1' * n)] + tail, [L('0x' + 'ab' * n)] + tail, [L('-' + '5' * n)] + tail,
                [L('"')] + C(BODY, n) + [L('"')] + tail, [L('"' + '\u00e9' * n + '"')] + tail, [L('"' + '\n' * n + '"')] + tail, [L('"' + '\\"' * n + '"')] + tail, [L('"' + 'x' * n)], [L('"' + ' \u00e9' * n)],
                [L('(*')] + C(BODY, n) + [L('*)')] + tail, [L('(*' + '\u00e9' * n + '*)')] + tail, [L('(*' + '*' * n + ')')] + tail, [L('(*' + '\n' * n + '*)')] + tail, [L('(*' + 'x' * n)], [L('(*' + ' \u00e9*' * n)],
                [L(' ' * n)] + tail, [L('\n' * n)] + tail, [L('\t\n' * n)] + tail, [L('\u3000' * n)] + tail, [L('(**)' * n)] + tail, [L('(' * n)] + tail, [L('+ ' * min(n, 40))] + tail]
    return out


# the least number that does not fit, where code computes with bytes
NARROW = {'u8': 256, 'i8': 128}


def very_long(n):
    """one token or comment of n known characters"""
    tail = [L(' y\n z')]
    return [[L('x' * n)] + tail, [L('"' + 'x' * n + '"')] + tail, [L('(*' + 'x' * n + '*)')] + tail, [L('ByStr' + '1' * n)] + tail, [L('X' * n)] + tail]


def constants(mir):
    """numbers the scanner's code mentions: lengths near them may be special"""
    ns = set()

    def walk(x):
        if isinstance(x, list):
            if len(x) == 4 and x[0] == 'cast' and x[3] in NARROW:
                ns.add(NARROW[x[3]])
            if len(x) == 2 and x[0] == 'int' and isinstance(x[1], int):
                ns.add(x[1])
            elif len(x) == 2 and x[0] == 'str' and isinstance(x[1], str):
                ns.update(int(n) for n in re.findall(r'[{,](\d+)', x[1]))
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    for n, f in mir['funcs'].items():
        if 'parser::lexer' in n and not f.get('derived') and 'parser::parser' not in n:
            walk(f.get('body'))
            for t in (f.get('body') or {}).get('locals') or []:
                if t in NARROW:
                    ns.add(NARROW[t])
    return sorted(v for v in ns if 4 <= v <= 600), sorted(v for v in ns if 600 < v <= 4200)


# ------------------------------------------------------------------ the checks
def texts(mir, tier):
    fam = {}
    fam['arbitrary'] = [d for n in range(4) for d in arbitrary(n)]
    fam['token'] = tokens_alone()
    fam['position'] = positions()
    near, far = constants(mir)
    ls = {4, 9, 17, 33, 66} | {v + d for v in near[:12] for d in (-1, 0, 1)}
    if tier == 'thorough':
        fam['arbitrary'] += arbitrary(4)
        ls |= {5, 6, 7, 8, 10, 12, 15, 16, 18, 31, 32, 34, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258}
    fam['long'] = long_texts(sorted(ls)) + [t for n in far[:2] for t in very_long(n + 2)]
    return fam


def describe(segs):
    out = ''
    for s in segs:
        out += s[1] if s[0] == 'lit' else '<%s>' % ('any' if s[1] == ALL else 'white' if s[1] == WS else 'one of %d' % s[1].bit_count())
    return show(out)


MIR = {}
DEADLINE = {}


def job(j):
    t0 = time.time()
    r = job1(j)
    if SLOW and time.time() - t0 > SLOW:
        print('%.1fs %s %s paths %d' % (time.time() - t0, j[0], describe(j[1]), r[1]))
    return r


SLOW = float(os.environ.get('LEXSLOW', '0'))


def job1(j):
    fam, segs = j
    left = DEADLINE.get('t', 1e12) - time.time()
    if left < 0:
        return fam, 0, 1, 1, [], ['no time left: ' + describe(segs)], {}, []
    R = Run(MIR['m'], budget=1500000)
    R.deadline = time.time() + min(left, 20)
    rnd = random.Random(repr(segs))
    try:
        ps = R.paths(segs, 60000, fam == 'arbitrary')
    except Missing:
        raise
    except RecursionError:
        return fam, 0, 1, 0, [], ['recursion too deep: ' + describe(segs)], {}, []
    bad, n, unds, seen, k = [], 0, [], set(), 0
    for p in ps:
        b, o, u = judge(R, p, rnd)
        n += o
        if u:
            k += 1
            if u not in seen:
                seen.add(u)
                unds.append(u + ': ' + describe(segs))
        for t, m in b:
            if sum(1 for x in bad if x[0] == t) < 3:
                bad.append((t, m))
    return fam, len(ps), n, k, bad, unds[:3], dict(R.unmodelled), sorted(R.I.analysed)


def analyse(mir, tier):
    from common import pmap
    MIR['m'] = mir
    new, nxt = anchors(mir)
    jobs = []
    for fam, ds in texts(mir, tier).items():
        jobs += [(fam, d) for d in ds]
    random.Random(1).shuffle(jobs)
    jobs.sort(key=lambda j: sum(s[1].bit_count() for s in j[1] if s[0] == 'ch') if j[0] != 'long' else 250)
    DEADLINE['t'] = time.time() + (240 if tier == 'quick' else 760)
    res = {'where': mir['funcs'][nxt].get('span', nxt), 'bad': [], 'paths': 0, 'obl': 0, 'und': 0, 'unds': [], 'docs': {}, 'unm': {}, 'ana': set()}
    for fam, paths, n, k, bad, unds, unm, ana in pmap(job, jobs, chunk=2):
        res['docs'][fam] = res['docs'].get(fam, 0) + 1
        res['paths'] += paths
        res['obl'] += n
        res['und'] += k
        res['bad'] += bad
        res['unds'] += unds
        res['ana'].update(ana)
        for x, c in unm.items():
            res['unm'][x] = res['unm'].get(x, 0) + c
    return res


def report(ck, res, topics):
    ck.ok(max(res['obl'] - res['und'], 0))
    for u in res['unds'][:60]:
        ck.unknown(res['where'], u)
    seen = set()
    for t, m in sorted(res['bad'], key=lambda x: (len(x[1]), x[1])):
        if t in topics and m not in seen:
            seen.add(m)
            if len(seen) <= 12:
                ck.bad(res['where'], m)
    ck.cov.setdefault('scanner_texts', res['docs'])
    ck.cov.setdefault('scanner_paths', res['paths'])
    ck.cov.setdefault('scanner_paths_undetermined', res['und'])
    if res['unm']:
        ck.cov.setdefault('unmodelled_calls', sorted(res['unm'])[:20])


def spelling(mir, prods, ck):
    """terminal table of the grammar and conversion of tokens to text"""
    from interp import Interp
    for s, v in prods['terms'].items():
        w = s[1:-1] if s.startswith('"') else None
        if w in SPELL:
            if SPELL[w] == v:
                ck.ok()
            else:
                ck.bad('terminal %s of the grammar' % s, 'the terminal %s stands for the token %s, expected %s' % (s, v, SPELL[w]))
    fs = [n for n in mir['funcs'] if 'core::convert::From<crate::parser::lexer::Token<&str>> for alloc::string::String' in n and n.endswith('::from')]
    if not fs:
        raise Missing('no conversion of tokens to text')
    ty = 'crate::parser::lexer::Token<&str>'
    spell = {v: k for k, v in SPELL.items()}
    for i, var in enumerate(mir['types'][ty]['variants']):
        want = spell.get(var['name'])
        if want is None and not var['fields']:
            continue
        I = Interp(mir, budget=100000)
        args = tuple(('sym', ('text',), f['ty']) for f in var['fields'])
        for o in I.exec_fn(St(), fs[0], [('adt', ty, i, args)], 0, 0):
            where = mir['funcs'][fs[0]].get('span', fs[0])
            if o[0] != 'ret':
                if o[0] == 'panic' and not o[1].und:
                    ck.bad(where, 'converting the token %s to text panics' % var['name'])
                else:
                    ck.unknown(where, '%s: %s' % (var['name'], str(o[2])[:120]))
                continue
            v = o[2]
            if want is not None:
                got = lit_of(v) if v[0] == 's' else None
                if got is None:
                    ck.unknown(where, 'text of %s not known' % var['name'])
                elif got != want:
                    ck.bad(where, 'the token %s is converted to the text %r, expected %r' % (var['name'], got, want))
                else:
                    ck.ok()
            elif v == ('s', (('disp', args[0]),)):
                ck.ok()
            elif v[0] == 's' and all(x[0] == 'l' or x == ('disp', args[0]) for x in v[1]):
                ck.bad(where, 'the token %s is converted to a text that is not its own' % var['name'])
            else:
                ck.unknown(where, 'text of %s not known' % var['name'])


def check(topics, spell=False):
    def f(mir, prods, ck):
        res = analyse(mir, ck.tier)
        report(ck, res, topics)
        if spell:
            spelling(mir, prods, ck)
        ck.cov['functions_analysed'] = sorted(x for x in res['ana'] if 'crate' in x)
    return f


def with_tokens(fn, topics):
    """a check of the grammar together with that of the tokens it is fed"""
    lex = check(topics)

    def f(mir, prods, ck):
        fn(mir, prods, ck)
        done = ck.cov.get('functions_analysed', [])
        lex(mir, prods, ck)
        ck.cov['functions_analysed'] = sorted(set(done) | set(ck.cov['functions_analysed']))
    return f
