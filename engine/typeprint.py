"""C04: printing a type gives Scilla text that denotes the same type, wherever a type may be written.

Structural induction over the types that parsing produces.  Display for Type is interpreted on each variant with
arbitrary parts; the parts' texts are units that, by hypothesis, stand for their type in every type position.  The
printed text is cut into tokens, derived from each nonterminal of the grammar that is a type position (all
derivations), the semantic actions of the derivations are interpreted, and the type that the resulting tree denotes
(the specification C03 decides for the conversion) must be the printed one."""
import re, itertools, random
import common, gramspec, grammar, emitter
from interp import *
from emitter import Anchor, TYPE, V, has_top, panic_text, lit_of, denote, denoted, unbox
from strings import text, holds, leaves, number, No

FMT = '<%s as core::fmt::Display>::fmt' % TYPE
POS = ['ScillaType', 'TypeArgument', 'TypeMapValue', 'TypeMapValueArguments', 'TypeMapValueAllowingTypeArguments']
KEYPOS = POS + ['TypeMapKey']
PRIMS = ['Int32', 'Int64', 'Int128', 'Int256', 'Uint32', 'Uint64', 'Uint128', 'Uint256', 'String', 'BNum', 'Bool']
SYMS = sorted((s for s in gramspec.SPELL if not re.match(r'\w', s) or s == '_'), key=lambda s: -len(s))
NAMES = ['Foo', 'Uint', 'Foo.Bar', '0xab12.Foo', 'Event', 'Option', 'ByStrFoo', 'Foo.Event', 'A_b', 'X1', 'Foo.ByStr20', 'List', '0xAB.ByStr1', 'ByStr20.Foo', 'Pair', 'Int', 'ByStr99999999999999999999', 'F',
         'ALongNameThatGoesOnAndOnForMoreThanFortyCharacters', 'Int512', 'Int32.T', 'Uint7', 'BNum2', 'Strings', 'Maps', 'Options', 'Lists']
VARS = ['x', '_this', 'abc', 'Foo.x', 'x_1', 'ByStr20.y', 'Event.z', '_x', 'field1', 'contracts', 'aVeryLongFieldNameThatGoesOnForLongerThanFortyCharacters', 'kB']
SPIDS = ['_codehash', '_x', '__a', '_contract', '_A1', '_library']
NUMS = [1, 2, 9, 10, 11, 19, 21, 30, 31, 32, 33, 48, 64, 65, 99, 100, 128, 200, 255, 256, 1000, 65535, 65536, 70000, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 0]


def word_class(w):
    if w in gramspec.SPELL:
        return gramspec.SPELL[w]
    if re.fullmatch(r'ByStr[0-9]+', w):
        return 'ByStrWithSize'
    if w[0] == '_':
        return 'SpecialIdentifier'
    return 'CustomIdentifier' if w[0].isupper() else 'Identifier'


class NoToken(Exception):
    pass


def lex(s):
    """[(token, text)] of a concrete text"""
    out, i = [], 0
    while i < len(s):
        m = re.compile(r'[ \t\r\n\f\v]+').match(s, i)
        if m:
            i = m.end()
            continue
        if s.startswith('(*', i):
            d, j = 1, i + 2
            j = s.find('*)', j)
            if j < 0:
                raise NoToken(s[i:])
            i = j + 2
            continue
        m = re.compile(r'0[xX](?:[0-9a-fA-F]{2})*').match(s, i)
        if m and m.end() > i:
            out.append(('HexNumber', m.group(0)))
            i = m.end()
            continue
        m = re.compile(r'[A-Za-z_][A-Za-z0-9_]*').match(s, i)
        if m:
            out.append((word_class(m.group(0)), m.group(0)))
            i = m.end()
            continue
        m = re.compile(r"'[A-Z][A-Za-z0-9_]*").match(s, i)
        if m:
            out.append(('TemplateIdentifier', m.group(0)))
            i = m.end()
            continue
        m = re.compile(r'-?[0-9]+').match(s, i)
        if m:
            out.append(('Number', m.group(0)))
            i = m.end()
            continue
        m = re.compile(r'"(?:\\.|[^"])*"', re.S).match(s, i)
        if m:
            out.append(('StringLiteral', m.group(0)))
            i = m.end()
            continue
        for y in SYMS:
            if s.startswith(y, i):
                out.append((gramspec.SPELL[y], y))
                i += len(y)
                break
        else:
            raise NoToken(s[i:])
    return out


WORD = re.compile(r"[A-Za-z0-9_']")


class Slots(dict):
    """what the parts of the printed value stand for; parts of parts are looked up by the shape of the type"""
    def __init__(self, d, I, dom):
        super().__init__(d)
        self.I, self.dom = I, dom

    def find(self, p):
        if p in self or not isinstance(p, tuple) or len(p) < 3 or p[-1][0] != 'f':
            return
        u = p[:-1]
        while u and u[-1] == ('d',):
            u = u[:-1]
        self.find(u)
        s = dict.get(self, u)
        if not s or s[0] != 'unit':
            return
        vd = self.I.ty(TYPE)['variants'][p[-1][1]]
        f = vd['fields'][p[-1][2]]
        if vd['name'] == 'ByStr20With':
            return
        if self.I.is_string(f['ty']):
            self[p] = ('name',)
            self.dom[('sp', p)] = NAMES
        elif inner_ty(self.I, f['ty']) == TYPE:
            self[p] = ('unit', KEYPOS if vd['name'] == 'Map' and p[-1][2] == 0 else POS)
        else:
            self[p] = ('size',)
            self.dom[('disp', self.I.sym(p, f['ty']))] = [str(x) for x in NUMS if x != 20]

    def get(self, p, d=None):
        self.find(p)
        return dict.get(self, p, d)

    def __getitem__(self, p):
        self.find(p)
        return dict.__getitem__(self, p)


def tokenize(pieces, slots, asg):
    """symbols of a printed text: ('t', token, pieces) | ('n', nonterminals, path).  slots: path -> ('unit', nts) | ('name',) | ...
    raises NoToken when pieces touch so that they are no separate tokens, No when a piece is not understood"""
    parts = []
    for p in pieces:
        if p in asg:
            p = ('lit', asg[p])
        elif p[0] == 'fun' or p[0] in ('strip', 'stripend') or p[0] == 'disp' and p[1][:2] == ('num', 'cast'):
            p = ('lit', text((p,), asg))
        if p[0] == 'lit':
            if p[1]:
                if parts and parts[-1][0] == 'lit':
                    parts[-1] = ('lit', parts[-1][1] + p[1])
                else:
                    parts.append(p)
        else:
            parts.append(p)
    out = []
    i = 0
    while i < len(parts):
        p = parts[i]
        prev = parts[i - 1] if i else None
        if p[0] == 'lit':
            s = p[1]
            nxt = parts[i + 1] if i + 1 < len(parts) else None
            m = re.search(r'(?<![A-Za-z0-9_\'.])ByStr$', s)
            if m and nxt and nxt[0] == 'disp' and slots.get(nxt[1][1] if nxt[1][0] == 'sym' else None, ('',))[0] == 'size':
                after = parts[i + 2] if i + 2 < len(parts) else None
                if after and (after[0] != 'lit' or WORD.match(after[1])):
                    raise NoToken('a size runs into what follows')
                out += [('t', t, (('lit', x),)) for t, x in lex(s[:-5])]
                out.append(('t', 'ByStrWithSize', (('lit', 'ByStr'), nxt)))
                i += 2
                continue
            if nxt is not None and WORD.match(s[-1]):
                raise NoToken('`%s` runs into what follows' % s)
            if prev is not None and WORD.match(s[0]):
                raise NoToken('`%s` runs into what precedes it' % s)
            out += [('t', t, (('lit', x),)) for t, x in lex(s)]
        else:
            key = None
            if p[0] == 'sp':
                key = p[1]
            elif p[0] == 'disp' and p[1][0] == 'sym':
                key = p[1][1]
            sl = slots.get(key)
            if sl is None or sl[0] == 'size':
                raise No(p[0])
            if prev is not None and prev[0] != 'lit':
                raise NoToken('two parts are not separated')
            if sl[0] == 'unit':
                out.append(('n', frozenset(sl[1]), key))
            elif sl[0] == 'name':
                out.append(('n', frozenset(['MetaIdentifier']), key))
            elif sl[0] == 'var':
                out.append(('n', frozenset(['VariableIdentifier']), key))
            elif sl[0] == 'spid':
                out.append(('t', 'SpecialIdentifier', (p,)))
        i += 1
    return out


def derivations(G, nt, syms, cap=40):
    """[(form, derivation)] of the symbols from nt"""
    memo = {}
    ml = G.minl

    def parse(n, i, j):
        key = (n, i, j)
        if key in memo:
            return memo[key]
        memo[key] = []
        out = []
        if j == i + 1 and syms[i][0] == 'n' and n in syms[i][1]:
            out.append((((i, n),), ('slot', 1)))
        for ai, (rhs, _) in enumerate(G.alts[n]):
            if sum(1 if k == 't' else ml.get(x, 1 << 20) for k, x in rhs) > j - i:
                continue
            for form, kids in seq(rhs, 0, i, j):
                out.append((form, ('alt', n, ai, kids)))
        memo[key] = out[:cap]
        return memo[key]

    def seq(rhs, p, i, j):
        if p == len(rhs):
            if i == j:
                yield (), ()
            return
        k, x = rhs[p]
        if k == 't':
            if i < j and syms[i][0] == 't' and syms[i][1] == x:
                for form, kids in seq(rhs, p + 1, i + 1, j):
                    yield ((i, x),) + form, ((None, ('slot', 1)),) + kids
            return
        rest = sum(1 if a == 't' else ml.get(b, 1 << 20) for a, b in rhs[p + 1:])
        lo = i + ml.get(x, 1 << 20)
        for e in range(lo, j - rest + 1):
            if p + 1 == len(rhs) and e != j:
                continue
            ds = parse(x, i, e)
            if not ds:
                continue
            for form, kids in seq(rhs, p + 1, e, j):
                for f2, d2 in ds:
                    yield f2 + form, ((None, d2),) + kids
    res = []
    for form, d in parse(nt, 0, len(syms)):
        res.append((tuple(('n', s) if syms[i][0] == 'n' else ('t', s) for i, s in form), d))
    return res


def same(I, spec, val, env):
    """does the spec of a tree denote the type value?  True / False / None"""
    k = spec[0]
    v = unbox(val)
    if k == 'any':
        return False          # a constructor with the wrong number of arguments
    if k == 'T':
        p = env['slots'].get(spec[1][1]) if spec[1][0] == 'slot' else None
        if p is None:
            return None
        return v[0] == 'sym' and v[1] == p
    if v[0] == 'sym' and v[2] == TYPE:
        vs = I.ty(TYPE)['variants']
        d = env['known'].get(('var', v[1]))
        if d is None or len(d) != 1:
            return None if d is None or k != 'adt' or any(vs[i]['name'] == spec[2] for i in d) else False
        vi = next(iter(d))
        v = ('adt', TYPE, vi, tuple(I.sym(v[1] + (('f', vi, i),), f['ty']) for i, f in enumerate(vs[vi]['fields'])))
    if k == 'fn':
        r = True
        for f, s in spec[1](env['facts']):
            x = same(I, s, val, env)
            if x is not True:
                r = x if r is True else r
        return r
    if k == 'named':
        ps, args = spec[1], spec[2]
        l = ''.join(p[1] for p in ps) if all(p[0] == 'lit' for p in ps) else None
        if l is not None:
            return same(I, denoted(I, l, args), val, env)
        if len(ps) == 2 and ps[0] == ('lit', 'ByStr') and ps[1][0] == 'disp':
            if args:
                return None
            return v[0] == 'adt' and vname(I, v) == 'ByStrX' and v[3][0] == ps[1][1]
        if v[0] == 'adt' and vname(I, v) == 'Other':
            if v[3][0] == ('s', ps):
                return True if not args else None
            return False
        if v[0] == 'adt':
            return False
        return None
    if k == 'adt':
        if v[0] == 'sym':
            return False if v[2] == TYPE else None
        if v[0] != 'adt' or vname(I, v) != spec[2]:
            return False
        vd = I.ty(v[1])['variants'][v[2]]['fields']
        r = True
        for i, f in enumerate(vd):
            x = same(I, spec[3][f['name']], v[3][i], env)
            if x is not True:
                r = x if r is True else (False if x is False else r)
        return r
    if k == 'num':
        return v == ('i', spec[1]) or (v[0] in ('i',) and v[1] == spec[1])
    if k == 'str':
        alts = spec[1](env['facts'])
        if v[0] == 'sym':
            v = ('s', (('sp', v[1]),))
        return all(v == ('s', norm(ps)) for _, ps in alts)
    if k == 'list':
        if v[0] != 'vec' or not all(s[0] == 'el' for s in v[1]):
            return None
        if len(v[1]) != len(spec[1]):
            return False
        r = True
        for a, s in zip(spec[1], v[1]):
            x = same(I, a, s[1], env)
            if x is not True:
                r = x if r is True else (False if x is False else r)
        return r
    return None


def norm(ps):
    return tuple(p for p in ps if p != ('lit', ''))


def vname(I, v):
    return I.ty(v[1])['variants'][v[2]]['name']


def concretize(v, asg):
    """the value with texts and numbers replaced by the chosen ones"""
    if isinstance(v, tuple):
        if v[:1] == ('s',):
            ps = v[1]
            if any(p in asg for p in ps):
                return ('s', (('lit', text(ps, asg)),))
            return v
        if v[:1] == ('sym',) and ('disp', v) in asg:
            return ('i', int(asg[('disp', v)]))
        return tuple(concretize(x, asg) if isinstance(x, tuple) else x for x in v)
    return v


# ------------------------------------------------------------------ the types parsing produces
def cases(I):
    """[(name, value, slots, domains)] the types that parsing produces, with arbitrary parts"""
    vs = I.ty(TYPE)['variants']
    out = []
    fl = None
    for vi, vd in enumerate(vs):
        n = vd['name']
        fs = [I.sym(('t', ('f', vi, i)), f['ty']) for i, f in enumerate(vd['fields'])]
        paths = [('t', ('f', vi, i)) for i in range(len(fs))]
        if n == 'ByStr20With':
            for kind in ('', 'contract', 'library', None):
                for k in (range(0, 5) if kind == 'contract' else (0,)):
                    slots, dom = {}, {}
                    els = []
                    for j in range(k):
                        fty = 'crate::field::Field'
                        fd = I.ty(fty)['variants'][0]['fields']
                        vals = []
                        for i, f in enumerate(fd):
                            p = ('t', ('f', vi, 1), ('e', j), ('f', 0, i))
                            if I.is_string(f['ty']):
                                slots[p] = ('var',)
                                dom[('sp', p)] = VARS
                            else:
                                slots[p] = ('unit', POS)
                            vals.append(I.sym(p, f['ty']))
                        els.append(('el', ('adt', fty, 0, tuple(vals))))
                    vals = []
                    for i, f in enumerate(vd['fields']):
                        if f['name'] == 'fields':
                            vals.append(('adt', f['ty'], 0, (('vec', tuple(els)),)))
                        elif kind is None:
                            vals.append(fs[i])
                            slots[paths[i]] = ('spid',)
                            dom[('sp', paths[i])] = SPIDS
                        else:
                            vals.append(('s', (('lit', kind),) if kind else ()))
                    what = 'ByStr20With (%s, %d fields)' % (repr(kind) if kind is not None else 'special identifier', k)
                    out.append((what, ('adt', TYPE, vi, tuple(vals)), slots, dom))
            continue
        slots, dom = {}, {}
        for i, f in enumerate(vd['fields']):
            if I.is_string(f['ty']):
                slots[paths[i]] = ('name',)
                dom[('sp', paths[i])] = NAMES
            elif inner_ty(I, f['ty']) == TYPE:
                slots[paths[i]] = ('unit', KEYPOS if n == 'Map' and i == 0 else POS)
            else:
                slots[paths[i]] = ('size',)
                dom[('disp', fs[i])] = [str(x) for x in NUMS if x != 20]
        out.append((n, ('adt', TYPE, vi, tuple(fs)), slots, dom))
    return out


def inner_ty(I, t):
    while I.ty(t).get('box'):
        t = I.ty(t)['args'][0]
    return t


KEYVARS = set(PRIMS) | {'ByStr', 'ByStrX', 'ByStr20', 'ByStr20With', 'Other'}
EXAMPLE = {'Map': '(Map Int32 Int32)', 'Option': '(Option Int32)', 'List': '(List Int32)', 'Pair': '(Pair Int32 Int32)', 'ByStrX': 'ByStr32', 'ByStr20With': '(ByStr20 with end)', 'Other': 'Foo'}


def flavour_hook(val, used):
    """a function from a type to its text, called on a part: by induction the text stands for the part (the function is then
    decided like Display itself)"""
    def hook(I, st, c, args, site):
        f = I.funcs.get(c['name'])
        if not f or not f.get('local') or not f.get('body') or f['body']['argc'] != 1 or len(args) != 1:
            return None
        a, r = f['body']['locals'][1], f['body']['locals'][0]
        if I.ty(a)['k'] != 'ref' or not I.is_string(r) or inner_ty(I, a.lstrip('&')) != TYPE:
            return None
        v = unbox(I.strip(st, args[0]))
        if v[0] != 'sym' or v[2] != TYPE or v == val:
            return None
        used.add(c['name'])
        return [('ret', st, ('s', (('disp', v),)))]
    return hook


def one(m, name, val, slots, dom, flavour=None, used=None):
    I = Interp(m)
    if used is not None:
        I.hooks.append(flavour_hook(val, used))
    where = 'printing ' + name
    res = []
    slots = Slots(slots, I, dom)
    root = ('T', 0, 'fmtr')
    st = St({root: ('fmtr', lit(''))})
    st.facts = dict(st.facts)
    vs = I.ty(TYPE)['variants']
    for p, s in slots.items():
        if s[0] == 'unit' and 'TypeMapKey' in s[1]:
            st.facts[('var', p)] = frozenset(i for i, v in enumerate(vs) if v['name'] in KEYVARS)
    I.display_opaque = lambda I_, st_, v_, t_, n_: inner_ty(I, t_) == TYPE and v_[0] in ('sym', 'box') and unbox(v_) != val
    try:
        if flavour:
            outs = [('ret', o[1].copy(), UNIT, o[2]) if o[0] == 'ret' else o for o in I.exec_fn(st, flavour, [('ref', ('V', val), ())], 0, 0)]
            for o in outs:
                if o[0] == 'ret':
                    o[1].mem[root] = I.strip(o[1], o[3])
        else:
            outs = I.exec_fn(st, FMT, [('ref', ('V', val), ()), ('ref', root, ())], 0, 0)
    except Budget as e:
        return [('unknown', where, str(e))], I, 0
    G = grammar.Impl(PRODS)
    G.minl = grammar.minlens(G.prods())
    for n in KEYPOS + ['MetaIdentifier', 'VariableIdentifier']:
        if n not in G.alts:
            raise Anchor('no rule ' + n)
    nder = 0
    for o in outs:
        if o[0] == 'undet' or o[1].und:
            res.append(('unknown', where, str(o[2])[:200] if o[0] == 'undet' else str(o[1].und[0])))
            continue
        facts = o[1].facts
        if o[0] == 'panic':
            res.append(('bad' if possible(facts, dom) else 'unknown', where, 'panics: ' + panic_text(o[2])))
            continue
        t = o[1].mem.get(root, top('text'))
        t = t[1] if t[0] == 'fmtr' else t
        if t[0] != 's' or has_top(t):
            res.append(('unknown', where, 'text not known'))
            continue
        ps = flat(t[1])
        rv = o[2]
        try:
            if grammar.canon(I, o[1], rv)[0] == 'err':
                res.append(('bad' if possible(facts, dom) else 'unknown', where, 'printing answers with an error'))
                continue
        except Exception:
            pass
        kn = I.ty(val[1])['variants'][val[2]]['name']
        for nt in (KEYPOS if kn in KEYVARS else POS):
            r = judge(m, I, G, nt, ps, slots, {}, val, facts)
            nder += 1
            if r[0] == 'ok':
                res.append(('ok', where, '`%s` as %s' % (show(ps), nt)))
                continue
            # is it really so?  look for texts that show it
            w = None
            for asg in itertools.islice(assignments(facts, dom, ps), 40):
                c = judge(m, I, G, nt, ps, slots, asg, concretize(val, asg), facts)
                if c[0] == 'bad':
                    w = (asg, c)
                    break
            if w:
                asg, c = w
                res.append(('bad', where, 'as %s: `%s` %s' % (nt, show(ps, asg), c[1])))
            else:
                res.append(('unknown', where, '%s: `%s` %s' % (nt, show(ps), r[1])))
    return res, I, nder


def flat(ps):
    out = []
    for p in ps:
        if p[0] == 'disp' and p[1][0] == 'box':
            p = ('disp', unbox(p[1]))
        out.append(p)
    return tuple(out)


def show(ps, asg={}):
    out = ''
    for p in ps:
        if p in asg:
            out += asg[p]
        elif p[0] == 'lit':
            out += p[1]
        else:
            try:
                out += text((p,), asg)
            except No:
                out += '<%s>' % ('type' if p[0] == 'disp' else 'name')
    return out


def judge(m, I, G, nt, ps, slots, asg, val, facts):
    try:
        syms = tokenize(ps, slots, asg)
    except NoToken as e:
        return ('bad', 'has no tokens: %s' % e)
    except No as e:
        return ('unknown', 'has a part that is not understood (%s)' % e)
    ds = derivations(G, nt, syms)
    if not ds:
        # units may still be read differently: as the tokens of an example
        for ex in examples(ps, slots, facts):
            try:
                toks = [s[1] for s in tokenize(ps, slots, dict(asg, **{}) | ex)]
            except (NoToken, No):
                continue
            if not any(s[0] == 'n' for s in tokenize(ps, slots, asg | ex)) and not grammar.Earley(G.prods()).accepts(nt, toks):
                return ('bad', 'is no type in this position')
        return ('unknown' if any(s[0] == 'n' for s in syms) else 'bad', 'is no type in this position')
    bad = []
    for form, d in ds:
        ev = Texts(m, G, {i: s[2] for i, s in enumerate(syms) if s[0] == 't'})
        emitter.TEXTS.clear()
        for i, s in enumerate(syms):
            if s[0] == 'n' and slots[s[2]][0] in ('name', 'var'):
                emitter.TEXTS[('slot', i)] = (('sp', s[2]),)
        J = ev.interp()
        try:
            for st, v, a, b, p in ev.run(J, St({}), d, 0, form):
                if st.und:
                    bad.append(('unknown', str(st.und[0])))
                    continue
                un = []
                sp = denote(J, J.strip(st, v) if v[0] == 'ref' else v, un)
                if un:
                    bad.append(('bad', 'denotes no supported type'))
                    continue
                env = {'slots': {i: s[2] for i, s in enumerate(syms) if s[0] == 'n'}, 'facts': st.facts, 'known': facts}
                r = same(J, sp, val, env)
                if r is False:
                    bad.append(('bad', 'denotes another type'))
                elif r is None:
                    bad.append(('unknown', 'denotation not compared'))
                else:
                    bad.append(('ok', ''))
        except grammar.Bad as e:
            bad.append(('unknown', str(e.args[1])))
        finally:
            emitter.TEXTS.clear()
    kinds = {b[0] for b in bad}
    if kinds == {'ok'}:
        return ('ok', '')
    if kinds == {'bad'}:
        return [b for b in bad if b[0] == 'bad'][0]
    return ('unknown', [b for b in bad if b[0] != 'ok'][0][1])


class Texts(grammar.Eval):
    def __init__(self, m, G, texts):
        super().__init__(m, G)
        self.texts = texts

    def slot(self, I, p, t):
        while I.ty(t)['k'] == 'ref':
            t = I.ty(t)['args'][0] if I.ty(t).get('args') else I.ty(t)['inner']
        if p in self.texts and I.is_string(t):
            return ('s', self.texts[p])
        return super().slot(I, p, t)


def examples(ps, slots, facts):
    """readings of the units as concrete texts"""
    units = [p for p in dict.fromkeys(ps) if p[0] == 'disp' and p[1][0] == 'sym' and slots.get(p[1][1], ('',))[0] == 'unit']
    vs = VARIANTS
    sets = []
    for u in units:
        d = facts.get(('var', u[1][1]))
        names = [n for i, n in enumerate(vs) if (d is None or i in d) and n in set(PRIMS) | set(EXAMPLE)]
        names = sorted(names, key=lambda n: (n not in ('Int32', 'List'), n))[:6]
        if 'TypeMapKey' in slots[u[1][1]][1]:
            names = [n for n in names if n in KEYVARS]
        sets.append([(u, EXAMPLE.get(n, n)) for n in names])
    names = [(p, (NAMES[0] if slots[p[1]][0] == 'name' else VARS[0] if slots[p[1]][0] == 'var' else SPIDS[0])) for p in dict.fromkeys(ps) if p[0] == 'sp' and p[1] in slots]
    for c in itertools.islice(itertools.product(*sets), 40):
        yield dict(list(c) + names)


def possible(facts, dom):
    return any(True for _ in assignments(facts, dom, None))


def assignments(facts, dom, ps):
    """concrete texts for the names, special identifiers and sizes that meet the conditions of the path"""
    conds = emitter.string_conds(facts)
    nums = [(k, v) for k, v in facts.items() if k[0] == 'cmp']
    keys = sorted(dom, key=repr)
    total = 1
    for k in keys:
        total *= len(dom[k])
    if not keys:
        combos = [()]
    elif total <= 3000:
        combos = itertools.product(*[dom[k] for k in keys])
    else:
        rnd = random.Random(5)
        combos = ([rnd.choice(dom[k]) for k in keys] for _ in range(3000))
    for c in combos:
        asg = dict(zip(keys, c))
        ok = True
        for k, v in conds:
            h = holds(k, v, asg)
            if h is not True:
                ok = False
                break
        if ok:
            for k, v in nums:
                try:
                    a, b = [number(x, asg) for x in k[2:4]]
                    if grammar.OPS[k[1]](a, b) != v:
                        ok = False
                except (KeyError, TypeError, IndexError, No):
                    ok = False
        if ok:
            yield asg


# ------------------------------------------------------------------ types with known parts
# names of types and fields that are equal to, begin or end like another name that means something
ODD_NAMES = ['Foo.Foo', 'Foo.Bar', 'F', 'F.G', 'FOO', 'Foo_', 'Foo1', 'F' * 70, 'L' * 40 + '.' + 'F' * 40, '0x1A.Foo', '0XaB.Foo', 'Lib.Event', 'Lib.ByStr20', 'Lib.ByStr7', 'Event.Foo', 'ByStr20.Foo'] + \
    ['Lib.' + x for x in ('Int32', 'Uint128', 'String', 'BNum', 'Bool', 'Option', 'List', 'Pair')] + [x + '.Foo' for x in ('Int32', 'String', 'Option', 'List')] + \
    ['Option', 'List', 'Pair', 'Int', 'Uint', 'Int8', 'Int512', 'Int320', 'Uint32x', 'Strings', 'BNumX', 'Boolean', 'Options', 'ByStrX', 'ByStr_', 'ByStr20x', 'ByStrs', 'Unit', 'Nat', 'Message', 'ADT', 'Mapp', 'Empty']
ODD_FIELDS = ['x', '_x', 'x_', 'x1', 'x' * 70, 'fielda', 'ends', 'contract_', 'owner', '_balance', 'mapX', 'forallx', 'in_', 'a__b']


def terms(tier, texts=(), ints=()):
    """types as terms: a name, ('ByStrX', n), ('Other', name), (constructor, argument...), ('addr', kind, ((field, type)...))"""
    leaves = ['Int32', 'Uint256', 'String', 'BNum', 'Bool', 'ByStr', 'ByStr20', ('ByStrX', 1), ('ByStrX', 32), ('ByStrX', 4294967295), ('Other', 'Foo'), ('Other', 'Lib.Foo'), ('Other', '0x1a.Foo'), ('Other', 'Event'),
              ('addr', '', ()), ('addr', 'contract', ()), ('addr', 'library', ()), ('addr', '_codehash', ()), ('addr', 'contract', (('x', 'Uint128'),)), ('addr', 'contract', (('x', ('addr', '', ())),))]
    keys = ['String', 'ByStr20', ('ByStrX', 32), ('Other', 'Foo'), ('addr', '', ()), ('addr', 'contract', (('k', 'Bool'),))]

    def over(ts, few):
        out = []
        for i, t in enumerate(ts):
            u = few[i % len(few)]
            out += [('Option', t), ('List', t), ('Pair', t, u), ('Pair', u, t), ('Pair', t, t), ('Map', keys[i % len(keys)], t)]
            out += [('addr', 'contract', (('fst', t),)), ('addr', 'contract', (('a', u), ('b', t)))]
        return out
    d2 = over(leaves, leaves[:7]) + [('Map', k, u) for k in keys for u in leaves[:3]]
    d3 = over(d2, leaves[:5])
    rnd = random.Random(7)
    d4 = over(rnd.sample(d3, 60 if tier == 'quick' else 600), d2)
    d5 = over(rnd.sample(d4, 30 if tier == 'quick' else 300), d2)
    out = leaves + d2 + d3 + d4 + d5
    for n in (3, 4, 5, 6, 7, 8, 9, 12, 17, 33):
        for c in ('Option', 'List'):
            t = 'Int32'
            for _ in range(n):
                t = (c, t)
            out.append(t)
        t = 'Int32'
        for _ in range(n):
            t = ('Map', 'String', t)
        out.append(t)
        t = 'Int32'
        for _ in range(n):
            t = ('Pair', 'Bool', ('Option', t))
        out.append(t)
        t = ('addr', '', ())
        for _ in range(n):
            t = ('addr', 'contract', (('f', t),))
        out.append(t)
        out.append(('addr', 'contract', tuple(('f%d' % i, leaves[(i * 3) % len(leaves)]) for i in range(n))))
        out.append(('addr', 'contract', tuple(('f', leaves[0]) for i in range(n))))
    for x in ODD_NAMES:
        out += [('Other', x), ('List', ('Other', x)), ('Map', ('Other', x), ('Other', x)), ('addr', 'contract', (('x', ('Other', x)),))]
    for x in ODD_FIELDS:
        out += [('addr', 'contract', ((x, 'Bool'),)), ('addr', 'contract', (('a', 'Bool'), (x, 'Bool')))]
    import scenes
    ids, tys = scenes.from_texts(texts)
    for x in ids[:300]:
        out.append(('addr', 'contract', ((x, 'Bool'), ('z', 'Bool'))))
    for x in tys[:300] + ['F' * n for n in ints]:
        if x not in PRIMS and x not in ('ByStr',):
            out += [('Other', x), ('Option', ('Other', x)), ('Other', 'Lib.' + x)]
        out += [('Other', x + '.' + y) for y in ('Foo', 'Int32', 'Option')]
    for n in sorted(set(NUMS) | set(ints) | {v + d for v in ints for d in (-1, 1)}):
        if n != 20 and 0 < n < 2 ** 32:
            out += [('ByStrX', n), ('List', ('ByStrX', n))]
    return list(dict.fromkeys(out))


def term_text(t):
    if isinstance(t, str):
        return t
    if t[0] == 'ByStrX':
        return 'ByStr%d' % t[1]
    if t[0] == 'Other':
        return t[1]
    if t[0] == 'addr':
        return '(ByStr20 with %s %s end)' % (t[1], ', '.join('field %s: %s' % (n, term_text(x)) for n, x in t[2]))
    return '(%s)' % ' '.join([t[0]] + [term_text(x) for x in t[1:]])


def term_value(I, t):
    vs = I.ty(TYPE)['variants']
    name = t if isinstance(t, str) else 'ByStr20With' if t[0] == 'addr' else t[0]
    vi = next((i for i, v in enumerate(vs) if v['name'] == name), None)
    if vi is None:
        raise Anchor('Type has no variant ' + name)
    if isinstance(t, str):
        return ('adt', TYPE, vi, ())
    fs = vs[vi]['fields']
    if t[0] == 'ByStrX':
        return ('adt', TYPE, vi, (('i', t[1]),))
    if t[0] == 'Other':
        return ('adt', TYPE, vi, (lit(t[1]),))
    if t[0] == 'addr':
        vals = []
        for f in fs:
            if f['name'] == 'fields':
                els = []
                fty = 'crate::field::Field'
                for n, x in t[2]:
                    els.append(('el', ('adt', fty, 0, tuple(lit(n) if I.is_string(g['ty']) else term_value(I, x) for g in I.ty(fty)['variants'][0]['fields']))))
                vals.append(('adt', f['ty'], 0, (('vec', tuple(els)),)))
            else:
                vals.append(lit(t[1]))
        return ('adt', TYPE, vi, tuple(vals))
    return ('adt', TYPE, vi, tuple(('box', term_value(I, x)) if I.is_box(f['ty']) else term_value(I, x) for f, x in zip(fs, t[1:])))


def one_term(m, t, force=False):
    I = Interp(m, budget=600000)
    where = 'printing ' + (term_text(t) if len(term_text(t)) < 200 else term_text(t)[:200] + '...')
    root = ('T', 0, 'fmtr')
    val = term_value(I, t)
    res = []
    try:
        with common.limit(30):
            I.vislimit, I.reclimit, I.maxdepth = 200, 100, 800
            outs = I.exec_fn(St({root: ('fmtr', lit(''))}), FMT, [('ref', ('V', val), ()), ('ref', root, ())], 0, 0)
            for o in outs:
                x = o[1].mem.get(root) if o[0] == 'ret' else None
                got = lit_of(x[1]) if x and x[0] == 'fmtr' and x[1][0] == 's' else None
                if o[0] == 'panic' and not o[1].und:
                    res.append(('bad', where, 'panics: ' + panic_text(o[2])))
                elif o[0] != 'ret' or o[1].und or got is None:
                    res.append(('unknown', where, 'text not known'))
                elif got == term_text(t) and not force:
                    res.append(('ok', where, ''))       # the text whose meaning is decided above
                else:
                    G = grammar.Impl(PRODS)
                    G.minl = grammar.minlens(G.prods())
                    r = ('ok', '')
                    for nt in POS:
                        r = judge(m, I, G, nt, (('lit', got),), Slots({}, I, {}), {}, val, {})
                        if r[0] != 'ok':
                            r = (r[0], 'as %s: `%s` %s' % (nt, got, r[1]))
                            break
                    res.append((r[0], where, r[1]))
    except Budget as e:
        res.append(('unknown', where, str(e)))
    return res


def check(m, prods, ck):
    global PRODS, VARIANTS
    PRODS = prods
    if FMT not in m['funcs']:
        raise Anchor('no Display for Type')
    I0 = Interp(m)
    VARIANTS = [v['name'] for v in I0.ty(TYPE)['variants']]
    missing = set(PRIMS) | set(EXAMPLE) | {'ByStr', 'ByStr20'}
    missing -= set(VARIANTS)
    if missing:
        raise Anchor('Type has no variant ' + ', '.join(sorted(missing)))
    ana, unm = set(), set()
    everything = []
    used, done = set(), set()
    hooked = True
    todo = [None]
    while todo:
        fl = todo.pop(0)
        done.add(fl)
        for case in cases(I0):
            everything.append((fl,) + one(m, *case, flavour=fl, used=used))
        if fl and any(r[0] != 'ok' for x in everything for r in x[1]):
            hooked = False
            break
        todo += [u for u in sorted(used) if u not in done and u not in todo]
    if not hooked:
        everything = [(None,) + one(m, *case) for case in cases(I0)]
    n = len(everything)
    for fl, res, I, k in everything:
        ana |= set(I.analysed)
        unm |= set(I.unmodelled)
        for kind, where, what in res:
            if kind == 'ok':
                ck.ok()
                if what.endswith('TypeArgument') and not fl:
                    ck.sample('%s: %s' % (where, what))
            elif kind == 'bad':
                ck.bad(where, what)
            else:
                ck.unknown(where, what)
    import scenes
    ts = terms(ck.tier, *scenes.strings(m))
    for r in common.pmap(lambda t: one_term(m, t), ts):
        for kind, where, what in r:
            ck.ok() if kind == 'ok' else ck.bad(where, what) if kind == 'bad' else ck.unknown(where, what)
    ck.cov['types_with_known_parts'] = len(ts)
    ck.cov['forms_of_types'] = n
    ck.cov['type_positions'] = KEYPOS
    ck.cov['functions_analysed'] = sorted(x for x in ana if 'crate' in x)
    ck.cov['unmodelled_calls'] = sorted(unm)


if __name__ == '__main__':
    import build, time
    m, p, key = build.load()
    ck = common.Check('C04', 'x')
    t = time.time()
    check(m, p, ck)
    print(ck.obl, ck.disch, len(ck.undet), ck.undet[:8], len(ck.viol), ck.viol[:8], time.time() - t)
    print(ck.samples)
