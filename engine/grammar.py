"""C11 - C13: which token sequences each rule of the grammar accepts and which tree it builds.

Two grammars are enumerated: the specification (gramspec.py) and the productions LALRPOP derived from the grammar file,
whose semantic actions are interpreted (from rustc's MIR) on symbolic children.  For every nonterminal known to both,
all sentential forms over those common nonterminals and the terminals, up to a length, are compared: the same forms
(C11), for each the same tree (C12) with the same spans (C13).  Helper rules are expanded, so that only what is accepted
and built counts, not how the rules are cut.  A difference between forms is reported only if a token sequence
shows it (Earley recognition with the whole grammar of the other side)."""
import re, sys, itertools
import common, gramspec
from interp import *
from emitter import has_top, panic_text, lit_of, Anchor
from strings import witness, holds, string_conds, leaves

ACT = 'crate::parser::parser::__action%d'
POS = 'crate::parser::lexer::SourcePosition'
LEN = {'quick': 26, 'thorough': 40}
CAP = 6000


# ------------------------------------------------------------------ specification
TOK = re.compile(r'\s*(?:"([^"]*)"|([A-Za-z_][A-Za-z0-9_]*)|(\S))')


def parse_form(s):
    """items: ('sym', label, kind, name) | ('rep', op, items)"""
    toks, i = [], 0
    while i < len(s.rstrip()):
        m = TOK.match(s, i)
        toks.append(('q', m.group(1)) if m.group(1) is not None else ('w', m.group(2)) if m.group(2) else ('p', m.group(3)))
        i = m.end()
    p = [0]

    def seq():
        out = []
        while p[0] < len(toks) and toks[p[0]] != ('p', ')'):
            k, v = toks[p[0]]
            label = None
            if (k, v) == ('p', '('):
                p[0] += 1
                it = ('grp', seq())
                p[0] += 1
            else:
                if k == 'w' and p[0] + 1 < len(toks) and toks[p[0] + 1] == ('p', ':'):
                    label = v
                    p[0] += 2
                    k, v = toks[p[0]]
                p[0] += 1
                if k == 'q':
                    it = ('sym', label, 't', gramspec.SPELL[v])
                elif v in gramspec.CLASSES:
                    it = ('sym', label, 't', gramspec.CLASSES[v])
                else:
                    it = ('sym', label, 'n', v)
            if p[0] < len(toks) and toks[p[0]][0] == 'p' and toks[p[0]][1] in '?*+':
                it = ('rep', toks[p[0]][1], it[1] if it[0] == 'grp' else [it])
                p[0] += 1
            out.append(it)
        return out
    return seq()


def parse_tree(s):
    toks = re.findall(r"'[^']*'|[A-Za-z_0-9]+|\S", s)
    p = [0]

    def peek():
        return toks[p[0]] if p[0] < len(toks) else None

    def take(x=None):
        t = toks[p[0]]
        assert x is None or t == x, (s, t, x)
        p[0] += 1
        return t

    def term():
        t = take()
        if t == '@':
            return ('wmd', term())
        if t == '~':
            return ('optional', take())
        if t == '[':
            items = []
            while peek() != ']':
                items.append(('splice', take()) if peek() == '*' and take() else ('item', term()))
                if peek() == ',':
                    take()
            take(']')
            return ('list', items)
        if t[0] == "'":
            take('<')
            w = take()
            take('>')
            return ('word', t[1:-1], w)
        if t == 'none':
            return ('none',)
        if t == 'some':
            take('(')
            x = term()
            take(')')
            return ('some', x)
        if t[0].isupper():
            fs = {}
            if peek() == '(':
                take()
                while peek() != ')':
                    n = take()
                    take('=')
                    fs[n] = term()
                    if peek() == ',':
                        take()
                take(')')
            return ('node', t, fs)
        return ('label', t)
    r = term()
    assert p[0] == len(toks), s
    return r


class Spec:
    def __init__(self):
        self.alts = {}
        for line in gramspec.SPEC.strip().split('\n'):
            if not line.strip():
                continue
            lhs, rest = line.split(' = ', 1)
            form, tree = rest.rsplit(' => ', 1) if not rest.rstrip().endswith('"=>"') else (rest, None)
            # the tree never contains =>
            self.alts.setdefault(lhs.strip(), []).append((parse_form(form), parse_tree(tree)))

    def nts(self):
        return [n for n in self.alts if n[0].isupper()]

    def flat(self, nt, limit, minlen):
        """(alternative, [(label, symbol)]) with every repetition unrolled within the limit"""
        for i, (items, _) in enumerate(self.alts[nt]):
            for fl in self.unroll(items, limit, minlen):
                yield i, fl

    def unroll(self, items, limit, minlen):
        if not items:
            yield ()
            return
        it, rest = items[0], items[1:]
        if it[0] == 'sym':
            n = 1 if it[2] == 't' else minlen.get(it[3], 1)
            if n <= limit:
                for r in self.unroll(rest, limit - n, minlen):
                    yield ((it[1], (it[2], it[3])),) + r
            return
        op, body = it[1], it[2]
        maxn = 1 if op == '?' else limit

        def times(k, lim):
            # k further repetitions
            if k == 0:
                yield (), lim
                return
            for b in self.unroll(body, lim, minlen):
                used = sum(1 if s[0] == 't' else minlen.get(s[1], 1) for _, s in b)
                if used == 0:
                    continue
                for r, l2 in times(k - 1, lim - used):
                    yield b + r, l2
        for k in range(1 if op == '+' else 0, maxn + 1):
            any_ = False
            for b, l2 in times(k, limit):
                any_ = True
                for r in self.unroll(rest, l2, minlen):
                    yield b + r
            if not any_ and k > 0:
                break

    def prods(self):
        """plain productions for recognition: nt -> list of symbol tuples"""
        out = {}
        cnt = [0]

        def conv(items):
            syms = []
            for it in items:
                if it[0] == 'sym':
                    syms.append((it[2], it[3]))
                else:
                    cnt[0] += 1
                    n = '%rep' + str(cnt[0])
                    b = conv(it[2])
                    out[n] = {'?': [(), b], '*': [(), (('n', n),) + b], '+': [b, (('n', n),) + b]}[it[1]]
                    syms.append(('n', n))
            return tuple(syms)
        for nt, alts in self.alts.items():
            out[nt] = [conv(items) for items, _ in alts]
        return out


# ------------------------------------------------------------------ the repository's grammar
class Impl:
    def __init__(self, prods):
        self.terms = prods['terms']
        self.alts = {}
        for nt, alts in prods['prods'].items():
            self.alts[nt] = [(tuple(self.sym(s) for s in syms), act) for syms, act in alts if act is not None]

    def sym(self, s):
        if s in self.terms:
            return ('t', self.terms[s])
        return ('n', s)

    def flat(self, nt, limit, minlen):
        for i, (syms, _) in enumerate(self.alts[nt]):
            if sum(1 if k == 't' else minlen.get(n, 1) for k, n in syms) <= limit:
                yield i, tuple((None, s) for s in syms)

    def prods(self):
        return {nt: [a[0] for a in alts] for nt, alts in self.alts.items()}


class TooMany(Exception):
    pass


def minlens(ps, common=()):
    ml = {}
    while True:
        ch = False
        for nt, alts in ps.items():
            for syms in alts:
                tot = 0
                for k, n in syms:
                    if k == 't' or n in common:
                        tot += 1
                    elif n in ml:
                        tot += ml[n]
                    else:
                        tot = None
                        break
                if tot is not None and tot < ml.get(nt, 1 << 30):
                    ml[nt] = tot
                    ch = True
        if not ch:
            return ml


class Enum:
    """all sentential forms over terminals and common nonterminals up to a length, with their derivations"""

    def __init__(self, G, common, expand_top=True):
        self.G, self.common = G, common
        self.ml = minlens(G.prods(), common)
        for c in common:
            self.ml[c] = 1
        self.top = minlens(G.prods(), common)
        self.memo = {}

    def forms(self, nt, limit):
        """[(form, derivation)]: derivation ('alt', nt, index, ((label, child), ...)), child ('slot', i) | derivation"""
        key = (nt, limit)
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise TooMany('recursive rule ' + nt)
            return r
        self.memo[key] = None
        out = []
        for i, fl in self.G.flat(nt, limit, self.ml):
            need = [1 if s[0] == 't' or s[1] in self.common else self.ml.get(s[1], 1 << 20) for _, s in fl]
            if sum(need) > limit:
                continue
            parts = [((), ())]
            for pos, (label, s) in enumerate(fl):
                rest = sum(need[pos + 1:])
                nxt = []
                for form, kids in parts:
                    room = limit - len(form) - rest
                    if s[0] == 't' or s[1] in self.common:
                        if room >= 1:
                            nxt.append((form + (s,), kids + ((label, ('slot', 1)),)))
                    else:
                        for f2, d2 in self.forms(s[1], room):
                            nxt.append((form + f2, kids + ((label, d2),)))
                    if len(nxt) > CAP:
                        raise TooMany('too many forms of ' + nt)
                parts = nxt
            for form, kids in parts:
                out.append((form, ('alt', nt, i, kids)))
            if len(out) > CAP:
                raise TooMany('too many forms of ' + nt)
        self.memo[key] = out
        return out


# ------------------------------------------------------------------ trees of the specification
def spec_tree(S, d, off, form):
    """(tree, next offset) of a derivation of the specification"""
    _, nt, i, kids = d
    env, spans = {}, {}
    p = off
    for label, k in kids:
        q = p
        if k[0] == 'slot':
            v = ('slot', p) if form[p][0] == 'n' else ('text', p)
            p += 1
        else:
            v, p = spec_tree(S, k, p, form)
        if label:
            env.setdefault(label, []).append(v)
            spans[label] = (('s', q), ('e', p - 1))
    whole = (('s', off), ('e', p - 1))

    def go(t):
        k = t[0]
        if k == 'wmd':
            return ('wmd', go(t[1]), whole[0], whole[1])
        if k == 'label':
            return env[t[1]][0]
        if k == 'optional':
            return ('some', env[t[1]][0]) if t[1] in env else ('none',)
        if k == 'some':
            return ('some', go(t[1]))
        if k == 'list':
            out = []
            for kind, x in t[1]:
                out += env.get(x, []) if kind == 'splice' else [go(x)]
            return ('list', tuple(out))
        if k == 'word':
            a, b = spans[t[2]] if t[2] in spans else ('?', '?')
            return ('wmd', ('lit', t[1]), a, b)
        if k == 'node':
            return ('node', t[1], tuple(sorted((n, go(x)) for n, x in t[2].items())))
        return t
    return go(S.alts[nt][i][1]), p


# ------------------------------------------------------------------ trees of the implementation
class Bad(Exception):
    pass


class Eval:
    def __init__(self, m, G):
        self.m, self.G = m, G
        self.analysed, self.unmodelled = set(), {}

    def interp(self):
        return Interp(self.m, budget=60000)

    def argty(self, act):
        f = self.m['funcs'].get(ACT % act)
        if not f or not f.get('body'):
            raise Anchor('semantic action %d has no body' % act)
        return f['body']['locals'][2:2 + f['body']['argc'] - 1], f['body']['locals'][0]

    def pos(self, I, p):
        return I.sym(('pos',) + p, POS)

    def slot(self, I, p, t):
        return I.sym(('slot', p), t)

    def run(self, I, st, d, off, form):
        """[(state, value or ('panic'..), start, end, next offset)]"""
        _, nt, i, kids = d
        syms, act = self.G.alts[nt][i]
        name = ACT % act
        tys, ret = self.argty(act)
        outs = [(st, (), off)]
        spans = []
        for j, (label, k) in enumerate(kids):
            nxt = []
            for s, args, p in outs:
                if k[0] == 'slot':
                    t = I.ty(tys[j])['args'][1] if I.ty(tys[j])['k'] == 'tuple' else None
                    if t is None:
                        raise Anchor('unexpected argument of action %d' % act)
                    v = self.slot(I, p, t)
                    nxt.append((s, args + ((self.pos(I, ('s', p)), v, self.pos(I, ('e', p))),), p + 1))
                else:
                    for s2, v, a, b, p2 in self.run(I, s, k, p, form):
                        nxt.append((s2, args + ((a, v, b),), p2))
            outs = nxt
        res = []
        for s, args, p in outs:
            err = ('ref', ('V', ('sym', ('errors',), '#errors')), ())
            if kids:
                vals = [('tup', a) for a in args]
                a, b = args[0][0], args[-1][2]
            else:
                la = self.pos(I, ('s', p) if p < len(form) else ('la', p))
                vals = [('ref', ('V', la), ()), ('ref', ('V', la), ())]
                a = b = la
            for o in I.exec_fn(s, name, [err] + vals, 0, ('act', len(form), off, p)):
                if o[0] == 'ret':
                    res.append((o[1], o[2], a, b, p))
                elif o[0] == 'panic':
                    raise Bad('panic', panic_text(o[2]), o[1])
                else:
                    raise Bad('undet', str(o[2])[:160], o[1])
        return res

    def trees(self, d, form):
        """[(facts, tree)] of a derivation; trees in the form of spec_tree"""
        I = self.interp()
        outs = []
        try:
            for st, v, a, b, p in self.run(I, St({}), d, 0, form):
                if st.und:
                    outs.append((st.facts, ('unknown', str(st.und[0]))))
                else:
                    outs.append((st.facts, canon(I, st, v)))
        finally:
            self.analysed |= set(I.analysed)
            self.unmodelled.update(I.unmodelled)
        return outs


def canon(I, st, v):
    while v[0] in ('box',) or (v[0] == 'ref'):
        v = v[1] if v[0] == 'box' else I.strip(st, v)
    k = v[0]
    if k == 'sym':
        path = v[1]
        if path[0] == 'pos':
            return path[1:]
        if path[0] == 'slot':
            return ('slot', path[1]) if len(path) == 2 else ('part', path)
        return ('unknown', 'symbol')
    if k == 's':
        if len(v[1]) == 1 and v[1][0][0] == 'sp' and v[1][0][1][0] == 'slot':
            p = v[1][0][1]
            return ('text', p[1]) if len(p) == 2 else ('part', p)
        l = lit_of(v)
        if l is not None:
            return ('lit', l)
        return ('pieces', v[1])
    if k == 'vec':
        out = []
        for s in v[1]:
            if s[0] == 'el':
                out.append(canon(I, st, s[1]))
            elif s[0] == 'all':
                out.append(('all', s[1], s[3]))
            else:
                return ('unknown', 'list')
        return ('list', tuple(out))
    if k == 'adt':
        t = I.ty(v[1])
        if t.get('box'):
            return canon(I, st, v[3][0])
        vs = t.get('variants')
        if not vs:
            if 'core::option::Option' in v[1]:
                return ('some', canon(I, st, v[3][0])) if v[3] else ('none',)
            if 'core::result::Result' in v[1]:
                return ('ok' if v[2] == 0 else 'err', canon(I, st, v[3][0]))
            return ('unknown', v[1])
        fs = [(f['name'], canon(I, st, x)) for f, x in zip(vs[v[2]]['fields'], v[3])]
        if t.get('path') == 'core::option::Option':
            return ('some', fs[0][1]) if v[3] else ('none',)
        if t.get('path') == 'core::result::Result':
            return ('ok' if v[2] == 0 else 'err', fs[0][1])
        if t.get('path') == POS:
            parts = [x for _, x in fs]
            raw = [I.strip(st, x) for x in v[3]]
            bases = {x[1][:-1] for x in raw if x[0] == 'sym' and x[1][:1] == ('pos',)}
            if len(bases) == 1 and len(raw) == len(vs[0]['fields']) and all(x[0] == 'sym' for x in raw):
                b = list(bases)[0]
                if len(b) == 3 and [x[1][-1] for x in raw] == [('f', 0, i) for i in range(len(raw))]:
                    return b[1:]
            return ('unknown', 'position') if any(has_top(x) for x in raw) else ('built position',)
        # a node rebuilt from all parts of another one is that one
        parts = [x for _, x in fs]
        if parts and all(x[0] == 'part' for x in parts):
            base = parts[0][1][:-1]
            if all(x[1][:-1] == base and x[1][-1] == ('f', v[2], i) for i, x in enumerate(parts)):
                return ('slot', base[1]) if len(base) == 2 else ('part', base)
        d = dict(fs)
        if t.get('path', '').endswith('::WithMetaData'):
            return ('wmd', d['node'], d['start'], d['end'])
        return ('node', vs[v[2]]['name'] if t.get('enum') else v[1].rsplit('::', 1)[1], tuple(sorted(d.items())))
    if k == 'tup' and not v[1]:
        return ('unit',)
    if k == 'len' or k == 'num' or k == 'i':
        return ('number',)
    return ('unknown', k)


def unknown(t):
    if isinstance(t, tuple):
        return t[:1] == ('unknown',) or any(unknown(x) for x in t)
    return False


def show(t, form):
    def sym(j):
        if j >= len(form):
            return 'what follows'
        n = ' #%d' % (1 + [s for s in form[:j]].count(form[j])) if form.count(form[j]) > 1 else ''
        return form[j][1] + n
    k = t[0] if isinstance(t, tuple) and t else t
    if k in ('slot', 'text'):
        return sym(t[1])
    if k == 's':
        return 'start of ' + sym(t[1])
    if k == 'e':
        return 'end of ' + sym(t[1])
    if k == 'la':
        return 'start of what follows'
    if k == 'lit':
        return repr(t[1])
    if k == 'list':
        return '[' + ', '.join(show(x, form) for x in t[1]) + ']'
    if k in ('some', 'ok', 'err'):
        return '%s(%s)' % (k, show(t[1], form))
    if k == 'none':
        return 'None'
    if k == 'wmd':
        return show(t[1], form)
    if k == 'node':
        return '%s(%s)' % (t[1], ', '.join(show(x, form) for _, x in t[2]))
    if k == 'part':
        return 'a part of ' + sym(t[1][1])
    if k == 'all':
        return 'a part of ' + sym(t[1][1])
    return str(k)


def diff(got, want, form, at, out):
    """differences: (kind, text)"""
    if got == want:
        return
    if want == '?':
        return
    if unknown(got) and (not isinstance(got, tuple) or got[0] == 'unknown'):
        out.append(('unk', at + ': ' + str(got[1:])))
        return
    where = at or 'the tree'
    if want[0] == 'wmd':
        if got[0] == 'wmd':
            diff(got[1], want[1], form, at, out)
            for n, g, w in (('start', got[2], want[2]), ('end', got[3], want[3])):
                if w == '?' or g == w:
                    continue
                if unknown(g):
                    out.append(('unk', where + ' ' + n))
                else:
                    out.append(('span', '%s of %s is the %s, not the %s' % (n, where, show(g, form), show(w, form))))
            return
        if unknown(got):
            out.append(('unk', where))
        else:
            out.append(('tree', '%s is %s instead of %s' % (where, show(got, form), show(want, form))))
        return
    if want[0] == 'node' and got[0] == 'node' and got[1] == want[1]:
        g, w = dict(got[2]), dict(want[2])
        if set(g) != set(w):
            out.append(('anchor', '%s has the fields %s, not %s' % (got[1], sorted(g), sorted(w))))
            return
        for n in sorted(w):
            diff(g[n], w[n], form, (at + '.' if at else '') + ('%s.%s' % (got[1], n)), out)
        return
    if want[0] == 'list' and got[0] == 'list' and len(got[1]) == len(want[1]) and not any(x[0] == 'all' for x in got[1]):
        for i, (g, w) in enumerate(zip(got[1], want[1])):
            diff(g, w, form, '%s[%d]' % (at, i), out)
        return
    if want[0] == 'some' and got[0] == 'some':
        diff(got[1], want[1], form, at, out)
        return
    if unknown(got):
        out.append(('unk', where))
    else:
        out.append(('tree', '%s is %s instead of %s' % (where, show(got, form), show(want, form))))


# ------------------------------------------------------------------ recognition of token sequences
class Earley:
    def __init__(self, ps):
        self.ps = ps
        ml = minlens(ps)
        self.nullable = {n for n in ps if ml.get(n) == 0}
        self.ml = ml

    def accepts(self, nt, toks):
        n = len(toks)
        chart = [set() for _ in range(n + 1)]
        todo = []

        def add(i, it):
            if it not in chart[i]:
                chart[i].add(it)
                todo.append((i, it))
        done = {}
        for a in self.ps[nt]:
            add(0, (nt, a, 0, 0))
        for i in range(n + 1):
            todo = [(i, it) for it in chart[i]]
            while todo:
                _, (l, rhs, dot, org) = todo.pop()
                if dot == len(rhs):
                    for it in list(chart[org]):
                        if it[2] < len(it[1]) and it[1][it[2]] == ('n', l):
                            add(i, (it[0], it[1], it[2] + 1, it[3]))
                    continue
                k, s = rhs[dot]
                if k == 't':
                    if i < n and toks[i] == s:
                        chart[i + 1].add((l, rhs, dot + 1, org))
                else:
                    for a in self.ps.get(s, ()):
                        add(i, (s, a, 0, i))
                    if s in self.nullable:
                        add(i, (l, rhs, dot + 1, org))
        return any(it[0] == nt and it[2] == len(it[1]) and it[3] == 0 for it in chart[n])

    def samples(self, nt, k=5):
        """some short token sequences of a nonterminal"""
        if not hasattr(self, '_s'):
            self._s = {}
        if nt in self._s:
            return self._s[nt]
        self._s[nt] = [self.shortest(nt)]
        res = []
        for a in sorted(self.ps[nt], key=lambda a: sum(1 if s[0] == 't' else self.ml.get(s[1], 99) for s in a)):
            t = ()
            for s in a:
                t += (s[1],) if s[0] == 't' else self.shortest(s[1])
            if t not in res:
                res.append(t)
        self._s[nt] = res[:k]
        return self._s[nt]

    def shortest(self, nt):
        if not hasattr(self, '_sh'):
            self._sh = {}
        if nt not in self._sh:
            a = min((a for a in self.ps[nt]), key=lambda a: sum(1 if s[0] == 't' else self.ml.get(s[1], 1 << 20) for s in a))
            t = ()
            for s in a:
                t += (s[1],) if s[0] == 't' else self.shortest(s[1])
            self._sh[nt] = t
        return self._sh[nt]

    def strings(self, form, limit=60):
        """token sequences of a sentential form: each nonterminal in turn by its samples, the others shortest"""
        base = [(s[1],) if s[0] == 't' else self.shortest(s[1]) for s in form]
        out = [sum(base, ())]
        for i, s in enumerate(form):
            if s[0] == 'n':
                for x in self.samples(s[1]):
                    t = sum(base[:i] + [x] + base[i + 1:], ())
                    if t not in out:
                        out.append(t)
        return out[:limit]


UNSPELL = {v: k for k, v in gramspec.SPELL.items()}
UNSPELL.update({'Identifier': 'x', 'SpecialIdentifier': '_x', 'CustomIdentifier': 'Foo', 'TemplateIdentifier': "'A", 'ByStrWithSize': 'ByStr20', 'Number': '1', 'HexNumber': '0x12', 'StringLiteral': '"s"'})


def spell(toks):
    return ' '.join(UNSPELL.get(t, t) for t in toks)


# ------------------------------------------------------------------ comparison
CAND = {'Identifier': ['x', 'abc', 'a1', 'fooBar', 'x_y', 'contract_', 'true', 'list', 'size', 'a_very_long_identifier_name_that_goes_on_and_on_for_ever'],
        'SpecialIdentifier': ['_x', '_this_address', '_sender', '__a', '_1'], 'CustomIdentifier': ['Foo', 'Uint256', 'List', 'Option', 'Pair', 'X1', 'Bool', 'ByStrange', 'Int32', 'BNum', 'String', 'A_b', 'True', 'False', 'Map2', 'ABC', 'Nil', 'Cons', 'AVeryLongTypeNameThatGoesOnAndOnForEver'],
        'TemplateIdentifier': ["'A", "'Bc", "'A_1"], 'ByStrWithSize': ['ByStr20', 'ByStr1', 'ByStr32', 'ByStr0', 'ByStr020', 'ByStr99999999999999999999'],
        'Number': ['0', '1', '-1', '+5', '00', '12345678901234567890123456789012345678901234567890', '-0'], 'HexNumber': ['0x12', '0xAB', '0xab', '0X12', '0x', '0x00', '0xabcdef0123456789abcdef0123456789abcdef01'],
        'StringLiteral': ['"s"', '""', '"a b"', '"\\"x"', '"é"', '"\n"']}


def positions(rng, n):
    """a plausible assignment of positions to the n symbols of a form: ('s'|'e'|'la', i) -> (offset, line, column)"""
    out, off, line, col = {}, rng.choice([0, 0, 1, 7, 300]), rng.choice([0, 0, 1, 5, 40]), rng.choice([0, 0, 2, 9])
    for i in range(n + 1):
        out[('s', i)] = (off, line, col)
        k = rng.choice([1, 1, 3, 10, 90])
        nl = rng.choice([0, 0, 0, 1, 4])
        off, line, col = off + k + nl, line + nl, (col + k if not nl else rng.choice([1, 3]))
        out[('e', i)] = (off, line, col)
        k = rng.choice([0, 0, 1, 1, 4])
        nl = rng.choice([0, 0, 0, 1, 2])
        off, line, col = off + k + nl, line + nl, (col + k if not nl else rng.choice([0, 2]))
        if i < n:
            out[('la', i)] = out[('s', i)]
    out[('la', n)] = out[('s', n)]
    return out


OPS = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}
OPS.update({k.capitalize(): v for k, v in list(OPS.items())})


def pos_value(v, asg):
    if v[0] == 'i':
        return v[1]
    if v[0] == 'sym' and v[1][0] == 'pos' and len(v[1]) == 4 and v[1][3][0] == 'f':
        return asg[v[1][1:3]][v[1][3][2]]
    raise KeyError


def feasible(facts, form):
    """can the conditions on the tokens and parts of a form be met?  True / False / None"""
    import random
    conds, cmps, eqs = [], [], []
    for k, v in facts.items():
        if k[0] == 'cmp':
            cmps.append((k, v))
        elif k[0] == 'eq2':
            eqs.append((k, v))
    conds = string_conds(facts)
    if any(k[0] == 'streq2' and not leaves(k, set()) for k in facts):
        return None
    # parts compared with each other: merge what is equal; what differs must not be forced to the same single value
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    rest = []
    for k, v in eqs:
        a, b = k[1], k[2]
        if leaves(k, set()):
            continue
        if a[0] == 'sym' and b[0] == 'sym' and all(x[1][0] == 'slot' and len(x[1]) == 2 for x in (a, b)):
            if v is True:
                par[find(a[1])] = find(b[1])
            rest.append((a[1], b[1], v))
        else:
            return None
    dom = {}
    for k, v in facts.items():
        if k[0] == 'var':
            r = find(k[1])
            dom[r] = dom[r] & v if r in dom else v
    if any(not d for d in dom.values()):
        return False
    for a, b, v in rest:
        if v is not True and (find(a) == find(b) or (len(dom.get(find(a), ())) == 1 and len(dom.get(find(b), ())) == 1)):
            return None
    if cmps:
        rng = random.Random(7)
        try:
            ok = False
            for _ in range(4000):
                asg = positions(rng, len(form))
                if all(OPS[k[1]](pos_value(k[2], asg), pos_value(k[3], asg)) == v for k, v in cmps):
                    ok = True
                    break
            if not ok:
                return None
        except (KeyError, TypeError, IndexError):
            return None
    if not conds:
        return True
    ls = set()
    for k, _ in conds:
        leaves(k, ls)
    ls = sorted(ls, key=repr)
    doms = []
    for l in ls:
        p = l[1]
        if p[0] != 'slot' or len(p) != 2 or form[p[1]][0] != 't':
            return None
        doms.append(CAND.get(form[p[1]][1], []))
        extra = [v for k, v in conds if isinstance(v, str)]
    unk = False
    for c in itertools.product(*doms):
        asg = dict(zip(ls, c))
        hs = [holds(k, v, asg) for k, v in conds]
        if None in hs and False not in hs:
            unk = True
        elif False not in hs:
            return True
    return None


def fmt(form):
    return ' '.join(UNSPELL.get(s[1], s[1]) if s[0] == 't' else s[1] for s in form) or '(nothing)'


def one(args):
    """compare one nonterminal; returns a list of (kind, construct, text) and counts"""
    m, S, G, common_, nt, limit = args
    iss, forms, okn = [], 0, 0
    ev = Eval(m, G)
    es, ei = Earley(S.prods()), Earley(G.prods())
    where = 'rule ' + nt
    while True:
        try:
            fs = Enum(S, common_).forms(nt, limit)
            fi = Enum(G, common_).forms(nt, limit)
            break
        except TooMany as e:
            if limit <= 5:
                return [('unk', where, str(e))], 0, 0, [], {}
            limit = limit * 3 // 4
    ds, di = {}, {}
    for f, d in fs:
        ds.setdefault(f, []).append(d)
    for f, d in fi:
        di.setdefault(f, []).append(d)
    seen = set()
    for f in sorted(ds, key=lambda f: (len(f), f)):
        forms += 1
        want = [spec_tree(S, d, 0, f)[0] for d in ds[f]]
        if f not in di:
            bad = next((t for t in es.strings(f) if not ei.accepts(nt, t)), None)
            if bad is not None:
                k = ('C11', where, '`%s` is not accepted (%s)' % (fmt(f), spell(bad)))
                sig = (k[0], tuple(dict.fromkeys(f)))
                if sig not in seen:
                    seen.add(sig)
                    iss.append(k)
            else:
                iss.append(('unk', where, 'no derivation of the form `%s`, but its token sequences are accepted' % fmt(f)))
            continue
        for d in di[f]:
            try:
                for facts, got in ev.trees(d, f):
                    best = None
                    if got[0] == 'err':
                        fe = feasible(facts, f)
                        iss.append(('C11' if fe else 'unk', where, '`%s` is rejected by the action%s' % (fmt(f), '' if not string_conds(facts) else ' for some texts')))
                        continue
                    if got[0] == 'ok':
                        got = got[1]
                    for w in want:
                        out = []
                        diff(got, w, f, '', out)
                        if best is None or len(out) < len(best):
                            best = out
                        if not out:
                            break
                    if not best:
                        okn += 1
                        continue
                    fe = feasible(facts, f)
                    for kind, msg in best:
                        kk = {'tree': 'C12', 'span': 'C13', 'unk': 'unk', 'anchor': 'unk'}[kind]
                        if kk != 'unk' and fe is not True:
                            kk = 'unk'
                        iss.append((kk, where, '`%s`: %s' % (fmt(f), msg)))
            except Bad as e:
                fe = feasible(e.args[2].facts, f)
                if e.args[0] == 'panic':
                    iss.append(('panic' if fe and not e.args[2].und else 'unk', where, '`%s`: the action panics: %s' % (fmt(f), e.args[1])))
                else:
                    iss.append(('unk', where, '`%s`: %s' % (fmt(f), e.args[1])))
            except Budget as e:
                iss.append(('unk', where, '`%s`: %s' % (fmt(f), e)))
    for f in sorted(di, key=lambda f: (len(f), f)):
        if f in ds:
            continue
        forms += 1
        bad = next((t for t in ei.strings(f) if not es.accepts(nt, t)), None)
        if bad is not None:
            sig = ('extra', tuple(dict.fromkeys(f)))
            if sig not in seen:
                seen.add(sig)
                iss.append(('C11', where, '`%s` is accepted although it is no such construct (%s)' % (fmt(f), spell(bad))))
        else:
            iss.append(('unk', where, 'form `%s` is not in the specification, but its token sequences are' % fmt(f)))
    return iss, forms, okn, sorted(ev.analysed), ev.unmodelled


def analyse(m, prods, tier='quick'):
    S, G = Spec(), Impl(prods)
    want = S.nts()
    common_ = frozenset(n for n in want if n in G.alts)
    if 'Program' not in common_:
        raise Anchor('no rule Program')
    global _CTX
    _CTX = (m, S, G, common_, LEN.get(tier, 26))
    jobs = sorted(common_)
    return S, G, common_, common.pmap(_job, jobs)


def _job(nt):
    m, S, G, c, L = _CTX
    return nt, one((m, S, G, c, nt, L))


def check(pid):
    def run(m, prods, ck):
        S, G, common_, res = analyse(m, prods, ck.tier)
        forms = 0
        ana, unm = set(), set()
        per = {}
        for nt, (iss, n, okn, a, u) in res:
            forms += n
            ana |= set(a)
            unm |= set(u)
            per[nt] = n
            mine = [i for i in iss if i[0] == pid]
            unk = [i for i in iss if i[0] == 'unk']
            for _, where, msg in mine:
                ck.bad(where, msg)
            for _, where, msg in unk:
                ck.unknown(where, msg)
            ck.ok((n if pid == 'C11' else okn) - (len(mine) if pid == 'C11' else 0) if n else 0)
            if n and len(per) % 6 == 0:
                ck.sample('rule %s: %d forms, %d trees equal' % (nt, n, okn))
        if forms < 200 or len(common_) < 30:
            raise Anchor('only %d forms of %d rules could be compared' % (forms, len(common_)))
        ck.cov['rules'] = len(common_)
        ck.cov['forms_per_rule'] = per
        ck.cov['form_length'] = LEN.get(ck.tier, 26)
        ck.cov['rules_of_the_specification_without_counterpart'] = sorted(set(S.nts()) - common_)
        ck.cov['functions_analysed'] = sorted(x for x in ana if 'crate' in x)[:2500]
        ck.cov['unmodelled_calls'] = sorted(unm)
    return run


if __name__ == '__main__':
    import build, time
    m, p, key = build.load()
    t = time.time()
    S, G, c, res = analyse(m, p)
    tot = {}
    for nt, (iss, n, okn, a, u) in res:
        for i in iss:
            tot[i[0]] = tot.get(i[0], 0) + 1
        if iss or '-v' in sys.argv:
            print(nt, n, okn, len(iss), iss[:3], list(u)[:3])
    print(len(c), sum(r[1][1] for r in res), sum(r[1][2] for r in res), tot, time.time() - t)
