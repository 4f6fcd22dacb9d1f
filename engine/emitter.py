"""C02 / C03: what the conversion of a syntax tree to a contract produces.

The public entry point (`<Contract as FromStr>::from_str`) is interpreted with the generated parser replaced
by "some syntax tree".  Type nodes are handled by induction over the tree: a function applied to an unknown
type node does what it does to a canonical leaf type of that node class, with the leaf's result replaced by
the result for the unknown node (or it fails).  The induction step is C03: each form of each class of type
node is put into each context and its result compared with the type it denotes."""
import sys
import common, concrete
from interp import *
from strings import witness, text, leaves, string_conds, INTMAX

A = 'crate::ast::nodes::'
WMD = A + 'WithMetaData'
SRT = 'crate::simplified_representation::primitives::SrType'
TYPE = 'crate::r#type::Type'
ENTRY = '<crate::contract::Contract as core::str::traits::FromStr>::from_str'
PROG = A + 'NodeProgram'


class V:
    """view of a tree position: path and type, looking through WithMetaData and Box"""

    def __init__(self, I, path, ty):
        while True:
            k = I.ty(ty)
            if k.get('path') == WMD:
                path, ty = path + (('f', 0, field_index(I, ty, 0, 'node')),), k['variants'][0]['fields'][field_index(I, ty, 0, 'node')]['ty']
            elif k.get('box'):
                ty = k['args'][0]
            else:
                break
        self.I, self.path, self.ty, self.k = I, path, ty, I.ty(ty)

    def f(self, name, variant=None):
        vi = 0 if variant is None else self.variant(variant)
        i = field_index(self.I, self.ty, vi, name)
        return V(self.I, self.path + (('f', vi, i),), self.k['variants'][vi]['fields'][i]['ty'])

    def raw(self, name, variant=None):
        vi = 0 if variant is None else self.variant(variant)
        i = field_index(self.I, self.ty, vi, name)
        return self.path + (('f', vi, i),), self.k['variants'][vi]['fields'][i]['ty']

    def variant(self, name):
        for i, v in enumerate(self.k['variants']):
            if v['name'] == name:
                return i
        raise Anchor('%s has no variant %s' % (self.ty, name))

    def str(self):
        return ('sp', self.path)


class Anchor(Exception):
    pass


def field_index(I, ty, vi, name):
    for i, f in enumerate(I.ty(ty)['variants'][vi]['fields']):
        if f['name'] == name or f['name'] == str(name):
            return i
    raise Anchor('%s has no field %s' % (ty, name))


def inner(I, t):
    k = I.ty(t)
    while k.get('path') == WMD or k.get('box'):
        t = k['args'][0]
        k = I.ty(t)
    return t


# ------------------------------------------------------------------ names
def names(I, path, ty, facts):
    """[(facts', pieces)]: the text of the name node at path as written in the source"""
    v = V(I, path, ty)
    if I.is_string(v.ty):
        return [(facts, (v.str(),))]
    short = v.ty.rsplit('::', 1)[1]
    out = []
    for vi, vd in enumerate(v.k['variants']):
        fc = restrict(facts, v.path, vi)
        if fc is None:
            continue
        fs = [f for f in vd['fields']]

        def sub(i, fc):
            return names(I, v.path + (('f', vi, i),), fs[i]['ty'], fc)
        if vd['name'] == 'EventType':
            out.append((fc, (('lit', 'Event'),)))
        elif vd['name'] == 'ByteString' and not fs:
            out.append((fc, (('lit', 'ByStr'),)))
        elif len(fs) == 1:
            out += sub(0, fc)
        elif len(fs) == 2:
            for f1, a in sub(0, fc):
                for f2, b in sub(1, f1):
                    out.append((f2, cat(a, (('lit', '.'),), b)))
        else:
            raise Anchor('unexpected name node %s::%s' % (short, vd['name']))
    return out


def restrict(facts, path, vi):
    cur = facts.get(('var', path))
    if cur is not None and vi not in cur:
        return None
    f = dict(facts)
    f[('var', path)] = frozenset([vi])
    return f


# ------------------------------------------------------------------ what a name of the source may look like
WORDS = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_')
LOW = set('abcdefghijklmnopqrstuvwxyz')
CLASSES = {('NodeTypedIdentifier', 'NodeTypedIdentifier', 'identifier_name'): 'id', ('NodeComponentId', 'WithRegularId', '0'): 'id',
           ('NodeVariableIdentifier', 'VariableName', '0'): 'id', ('NodeVariableIdentifier', 'VariableInNamespace', '1'): 'id',
           ('NodeVariableIdentifier', 'SpecialIdentifier', '0'): 'special', ('NodeTypeNameIdentifier', 'TypeOrEnumLikeIdentifier', '0'): 'type',
           ('NodeMetaIdentifier', 'MetaNameInHexspace', '0'): 'hex'}
FIRST = {'id': LOW, 'special': {'_'}, 'type': set(c.upper() for c in LOW)}


def text_class(I, path):
    """what is possible for the text of the name at path: fn(kind of condition, text) -> bool; the scanner and grammar (C06, C11, C12) admit no other"""
    p = path
    while len(p) > 1 and I.ty(I.symty.get(p[:-1], '')).get('path') == WMD:
        p = p[:-1]
    if len(p) < 2 or p[-1][:1] != ('f',):
        return None
    pt = I.symty.get(p[:-1])
    k = I.ty(pt or '')
    if not k.get('variants'):
        return None
    v = k['variants'][p[-1][1]]
    cl = CLASSES.get((pt.rsplit('::', 1)[1], v['name'], v['fields'][p[-1][2]]['name']))
    if cl is None:
        return None

    def ok(kind, s):
        if cl == 'hex':
            first, word = {'0'}, set('0123456789abcdefABCDEFxX')
        else:
            first, word = FIRST[cl], WORDS
        if any(c not in word for c in s):
            return False
        if kind in ('streq', 'pre', 'starts_with') and s and s[0] not in first:
            return False
        if kind == 'streq' and (not s or cl == 'id' and s in lexspell()):
            return False
        return True
    return ok


def lexspell():
    from lexer import SPELL
    return SPELL


# ------------------------------------------------------------------ leaves
LEAF = {'NodeScillaType': 'GenericTypeWithArgs', 'NodeTypeArgument': 'GenericTypeArgument', 'NodeTypeMapValue': 'MapValueTypeOrEnumLikeIdentifier',
        'NodeTypeMapValueArguments': 'GenericMapValueArgument', 'NodeTypeMapValueAllowingTypeArguments': 'TypeMapValueNoArgs',
        'NodeTypeMapKey': 'GenericMapKey', 'NodeMetaIdentifier': 'MetaName', 'NodeTypeNameIdentifier': 'TypeOrEnumLikeIdentifier'}
CUT = {A + n for n in list(LEAF)[:6]}


class Conv:
    def __init__(self, mir, budget=300000):
        self.m = mir
        self.names = {}
        self.cutcalls = 0

    def leaf_name(self, p):
        n = self.names.get(p)
        if n is None:
            n = self.names[p] = '\x01leaf%d\x01' % len(self.names)
        return n

    def leaf(self, I, path, ty, name):
        """canonical leaf value of a type node class"""
        k = I.ty(ty)
        if I.is_string(ty):
            return lit(name)
        if k.get('box'):
            return ('box', self.leaf(I, path, k['args'][0], name))
        if k.get('path') == 'alloc::vec::Vec':
            return ('vec', ())
        if k.get('path') == WMD:
            fs = k['variants'][0]['fields']
            return ('adt', ty, 0, tuple(self.leaf(I, path + (('f', 0, i),), f['ty'], name) if f['name'] == 'node' else I.sym(path + (('f', 0, i),), f['ty']) for i, f in enumerate(fs)))
        short = ty.rsplit('::', 1)[1]
        if short not in LEAF:
            raise Anchor('no leaf for ' + ty)
        for vi, v in enumerate(k['variants']):
            if v['name'] == LEAF[short]:
                return ('adt', ty, vi, tuple(self.leaf(I, path + (('f', vi, i),), f['ty'], name) for i, f in enumerate(v['fields'])))
        raise Anchor('no variant %s of %s' % (LEAF[short], ty))

    def interp(self, tree, errors=True, budget=300000):
        """interpreter with the parser replaced by `tree`"""
        I = Interp(self.m, budget=budget)
        I.reclimit = 8
        self.tree = tree
        self.errors = errors

        def hook(I, st, c, args, site):
            path = strip_generics(c['path'])
            if path.startswith('crate::parser::parser::'):
                if path.endswith('::parse'):
                    t = self.retty(c)
                    return [('ret', st, ('adt', t, 0, (self.tree(I) if callable(self.tree) else self.tree,)))]
                return [('ret', st, ('sym', ('parser',), '#parser'))]
            if path.startswith('crate::parser::lexer::Lexer') and path.endswith('::new'):
                return [('ret', st, ('sym', ('lexer',), '#lexer'))]
            if c['decl'] == 'core::convert::From::from' and (c.get('dargs') or [None])[0] == TYPE:
                v = I.strip(st, args[0])
                if v[0] == 'sym' and v[1][:1] == ('ty',):
                    return [('ret', st, ('sym', ('T',) + v[1][1:], TYPE))]
            f = I.funcs.get(c['name'])
            if f is None and c.get('kind') == 'virtual':
                d = I.devirt(st, c, args)
                f = I.funcs.get(d['name']) if d else None
                if f:
                    c = d
            if not f or not f.get('body') or not f.get('local') or f.get('derived'):
                return None
            for i, a in enumerate(args):
                v = I.strip(st, a)
                if v[0] == 'sym' and inner(I, v[2]) in CUT and v[1][:1] != ('ty',) and path.rsplit('::', 1)[-1] not in ('fmt', 'clone', 'eq', 'ne', 'drop'):
                    return self.summary(I, st, c, args, i, v, site)
            return None
        I.hooks.append(hook)
        I.text_class = text_class
        return I

    def retty(self, c):
        f = self.m['funcs'].get(c['name'])
        if f and f.get('body'):
            return f['body']['locals'][0]
        return 'core::result::Result'

    def summary(self, I, st, c, args, i, v, site):
        self.cutcalls += 1
        p = V(I, v[1], v[2]).path
        name = self.leaf_name(p)
        lv = self.leaf(I, v[1], v[2], name)
        a = list(args)
        a[i] = ('ref', ('V', lv), ()) if a[i][0] == 'ref' else lv
        outs = I.call(st, c, a, (site[0], ('sum', site[1])))
        res = []
        memo = {}

        def gen(x):
            if not isinstance(x, tuple):
                return x
            r = memo.get(id(x))
            if r is not None:
                return r[1]
            r = None
            if x and x[0] == 'adt' and x[1] == SRT and len(x) == 4:
                k = I.ty(SRT)
                mt = x[3][field_index(I, SRT, 0, 'main_type')]
                if lit_of(mt) == name and x[3][field_index(I, SRT, 0, 'sub_types')] == ('vec', ()):
                    r = ('sym', ('ty',) + p, SRT)
            elif x and x[0] == 'adt' and x[1] == TYPE and len(x) == 4 and len(x[3]) == 1 and lit_of(x[3][0]) == name:
                r = ('sym', ('T',) + p, TYPE)
            if r is None:
                r = tuple(gen(y) for y in x)
                if all(a is b for a, b in zip(r, x)):
                    r = x
            memo[id(x)] = (x, r)
            return r
        for o in outs:
            if o[0] == 'ret':
                s = St({r: gen(w) for r, w in o[1].mem.items()}, o[1].facts, o[1].und)
                w = gen(o[2])
                if any(has_lit(x, name) for x in s.mem.values()) or has_lit(w, name):
                    s = s.doubt('the result of ' + c['name'] + ' for a type is not understood')
                res.append(('ret', s, w))
            else:
                res.append(o)
        if self.errors:
            f = I.funcs.get(c['name'])
            rt = f['body']['locals'][0] if f and f.get('body') else ''
            k = I.ty(rt)
            if k.get('path') == 'core::result::Result' and I.is_string(k['args'][1]):
                res.append(('ret', st, ('adt', rt, 1, (('s', (('err',) + p,)),))))
        return res

    def run(self, tree, errors=True, budget=300000, vislimit=None):
        I = self.interp(tree, errors, budget)
        if vislimit:
            I.vislimit, I.reclimit, I.maxdepth = vislimit, 150, 3000      # everything is known: loops and recursion end by themselves
        outs = I.exec_fn(St({}), ENTRY, [('s', (('sp', ('src',)),))], 0, 0)
        return I, outs


def has_lit(v, name, memo=None):
    """does the text occur in the value?  (values share parts: each is looked at once)"""
    if isinstance(v, str):
        return name in v
    if isinstance(v, (tuple, frozenset)):
        memo = {} if memo is None else memo
        r = memo.get(id(v))
        if r is None:
            memo[id(v)] = False
            r = memo[id(v)] = any(has_lit(x, name, memo) for x in v)
        return r
    return False


# ------------------------------------------------------------------ comparison with specifications
#  spec: ('str', [(facts, pieces)]) | ('adt', type, variant name, {field: spec}) | ('seq', P, fn) | ('list', [spec])
#        | ('T', path) | ('any',) | ('named', pieces, args) (the type a written name with arguments denotes)
PRIM = {n: n for n in 'Int32 Int64 Int128 Int256 Uint32 Uint64 Uint128 Uint256 String BNum Bool ByStr ByStr20'.split()}
ARITY = {'Option': 1, 'List': 1, 'Pair': 2, 'Map': 2}
BYSTRN = ['ByStr1', 'ByStr2', 'ByStr19', 'ByStr21', 'ByStr30', 'ByStr32', 'ByStr33', 'ByStr64', 'ByStr127', 'ByStr128', 'ByStr200', 'ByStr255', 'ByStr256', 'ByStr300', 'ByStr1000', 'ByStr65535', 'ByStr65536', 'ByStr100000', 'ByStr4294967295', 'ByStr4294967296']
NEAR = ['Int', 'Int16', 'Uint', 'Uint512', 'Nat', 'Unit', 'Error', 'Message', 'Event', 'Address', 'ByStrX', 'ByStr20Foo', 'Bystr20', 'Foo.Int32', 'Foo.Bool', 'Foo.ByStr20', 'Lib.Map', 'Lib.List',
        'Lib.Option', 'Lib.Pair', '0x1a.Foo', '0x1a.Int32', 'Int32_', 'MyType', 'Options', 'Lists', 'Pairs', 'Strings', 'BNum2', 'Booleans', 'Uint1', 'True', 'False']
CANDIDATES = sorted(PRIM) + sorted(ARITY) + BYSTRN + NEAR


def has_fun(v):
    if isinstance(v, tuple):
        return v[:1] in (('fun',), ('strip',), ('stripend',)) or any(has_fun(x) for x in v)
    return False


def has_top(v):
    if isinstance(v, tuple):
        if v and v[0] in ('top', 'uninit', 'unk', 'part', 'mu'):
            return True
        return any(has_top(x) for x in v if isinstance(x, (tuple, frozenset)))
    if isinstance(v, frozenset):
        return any(has_top(x) for x in v)
    return False


def unbox(v):
    while v[0] == 'box':
        v = v[1]
    return v


class Match:
    """matches abstract values with specifications; collects differences"""

    def __init__(self, I, root_ty):
        self.I, self.root = I, root_ty
        self.diffs = []     # definite differences
        self.unk = []
        self.n = 0

    def diff(self, where, got, want):
        if has_top(got):
            self.unk.append('%s is not known' % where)
        else:
            self.diffs.append((where, 'is %s, expected %s' % (self.show(got), want)))

    # ---- rendering
    def pname(self, path):
        ty, out, i = self.root, '', 1
        p = path
        if p and p[0] in ('ty', 'T', 'err'):
            p = p[1:]
        out = ''
        for st in p[1:]:
            k = self.I.ty(ty)
            while k.get('box') or (k.get('path') == WMD and st[0] != 'f'):
                ty = k['args'][0]
                k = self.I.ty(ty)
            if st[0] == 'f':
                try:
                    vd = k['variants'][st[1]]
                    f = vd['fields'][st[2]]
                    if k.get('path') == WMD and f['name'] == 'node':
                        pass
                    elif k.get('enum'):
                        out += '.%s%s' % (vd['name'], '' if f['name'] == '0' else '.' + f['name'])
                    else:
                        out += '.' + f['name']
                    ty = f['ty']
                except (KeyError, IndexError, TypeError):
                    out += '.?'
                    ty = ''
            else:
                out += '[%s]' % ('i' if st[0] == 'e' else st[1])
                a = k.get('args') or ['']
                ty = a[0] if a else ''
        return out.lstrip('.') or str(p[0])

    def show(self, v, d=0):
        v = unbox(v)
        t = v[0]
        if d > 6:
            return '...'
        if t == 's':
            return self.pieces(v[1])
        if t == 'sym':
            if v[1][:1] == ('T',):
                return 'the type at ' + self.pname(v[1])
            return self.pname(v[1])
        if t == 'adt':
            k = self.I.ty(v[1])
            nm = v[1].split('<')[0].rsplit('::', 1)[1]
            try:
                vd = k['variants'][v[2]]
                if k.get('enum'):
                    nm = vd['name']
            except (KeyError, IndexError, TypeError):
                pass
            return nm + ('(%s)' % ', '.join(self.show(x, d + 1) for x in v[3]) if v[3] else '')
        if t == 'vec':
            return '[%s]' % ', '.join(self.seg(s, d) for s in v[1])
        if t in ('i', 'b', 'ch'):
            return str(v[1])
        if t == 'num':
            return 'the number in ' + self.show(v[2]) if len(v) > 2 and isinstance(v[2], tuple) else 'a number'
        return t

    def seg(self, s, d):
        if s[0] == 'el':
            return self.show(s[1], d + 1)
        if s[0] == 'all':
            return 'elements of ' + self.pname(s[1]) + (' %s' % (s[3],) if s[3] else '')
        if s[0] == 'map':
            alts = ['|'.join(self.seg(x, d + 1) for x in dl) or 'nothing' for g, dl in sorted(s[5], key=repr)]
            return 'for each of %s%s: %s' % (self.pname(s[1]), ' %s' % (s[2],) if s[2] else '', ' or '.join(alts))
        return s[0]

    def pieces(self, ps):
        out = []
        for p in ps:
            if p[0] == 'lit':
                out.append(repr(p[1]))
            elif p[0] == 'sp':
                out.append(self.pname(p[1]))
            elif p[0] == 'err':
                out.append('the error for ' + self.pname(p[1:]))
            else:
                out.append(p[0])
        return ' ++ '.join(out) or "''"

    # ---- matching
    def m(self, facts, v, spec, where):
        v = unbox(v)
        k = spec[0]
        self.n += 1
        if k == 'any':
            return
        if k == 'fn':
            return self.alts(facts, spec[1], lambda f, s: self.m(f, v, s, where))
        if k == 'str':
            for fc, ps in spec[1](facts):
                if v != ('s', ps):
                    if v[0] == 's' and (has_fun(v) or any(leaves(c[0], set()) & leaves((v, ps), set()) for c in string_conds(fc))):
                        # functions of or conditions on written texts: different only if some names tell them apart
                        w = witness(fc, v[1], ps)
                        if w == '?':
                            self.unk.append('%s: not compared' % where)
                            return
                        self.diff(where, v, '%s (e.g. "%s", not "%s")' % (self.pieces(ps), text(ps, w), text(v[1], w)))
                        return
                    self.diff(where, v, self.pieces(ps))
                    return
            return
        if k == 'T':
            if v != ('sym', ('T',) + spec[1], TYPE):
                self.diff(where, v, 'the type at ' + self.pname(('T',) + spec[1]))
            return
        if k == 'adt':
            if v[0] != 'adt' or v[1] != spec[1]:
                return self.diff(where, v, spec[2])
            kk = self.I.ty(v[1])
            vd = kk['variants'][v[2]]
            if vd['name'] != spec[2] and kk.get('enum'):
                return self.diff(where, v, spec[2])
            fs = [f['name'] for f in vd['fields']]
            for f, s in spec[3].items():
                if f not in fs:
                    raise Anchor('%s has no field %s' % (v[1], f))
                self.m(facts, v[3][fs.index(f)], s, where + ('.' + f if not f.isdigit() else '.' + spec[2] if kk.get('enum') else ''))
            return
        if k == 'num':
            if v != ('i', spec[1]):
                self.diff(where, v, str(spec[1]))
            return
        if k == 'list':
            if v[0] == 'vec' and all(s[0] == 'el' for s in v[1]):
                if len(v[1]) != len(spec[1]):
                    return self.diff(where, v, '%d elements' % len(spec[1]))
                for i, (s, sp) in enumerate(zip(v[1], spec[1])):
                    self.m(facts, s[1], sp, where + '[%d]' % i)
                return
            return self.diff(where, v, '%d elements' % len(spec[1]))
        if k == 'seq':
            return self.seq(facts, v, spec, where)
        if k == 'named':
            return self.named(facts, v, spec, where)
        raise AssertionError(k)

    def alts(self, facts, fn, go):
        for f, s in fn(facts):
            go(f, s)

    def seq(self, facts, v, spec, where):
        """v must hold, for each element of the list P in order, the elements fn(path of the element)"""
        P, fn = spec[1], spec[2]
        if v[0] != 'vec':
            return self.diff(where, v, 'a list for the elements of ' + self.pname(P))
        pos, done, pend = 0, False, None
        if facts.get(('empty', P)) is True:
            if v[1]:
                self.diff(where, v, 'nothing, as %s is empty' % self.pname(P))
            return
        segs = list(v[1])
        for s in segs:
            if done:
                return self.diff(where, v, 'one entry per element of %s and nothing else' % self.pname(P))
            if s[0] == 'el':
                ep = P + (('n', pos),)
                pos += 1
                bad = []
                for fc, els in fn(self.I, ep, facts):
                    if len(els) != 1:
                        return self.unk.append(where + ': list shape')
                    self.m(fc, s[1], els[0], where + '[%d]' % (pos - 1))
                continue
            if s[0] == 'map' and s[1] == P and s[4] == 'full' and s[2] in ((), (('skip', pos),)) and (pos == 0) == (s[2] == ()):
                done = True
                for g, dl in sorted(s[5], key=repr):
                    fc0 = dict(facts)
                    fc0.update(dict(g))
                    ep = P + (('e', s[3]),)
                    for fc, els in fn(self.I, ep, fc0):
                        if len(els) != len(dl) or any(x[0] != 'el' for x in dl):
                            self.diff(where, ('vec', tuple(dl)), '%d entr%s for an element of %s%s' % (len(els), 'y' if len(els) == 1 else 'ies', self.pname(P), self.under(fc, P)))
                            break
                        for x, e in zip(dl, els):
                            self.m(fc, x[1], e, where + '[i]')
                continue
            if s[0] == 'all' and s[1] == P and s[3] == ():
                # elements themselves
                done = True
                ep = P + (('e', 'x'),)
                for fc, els in fn(self.I, ep, facts):
                    if len(els) != 1:
                        return self.diff(where, v, 'something else')
                    self.m(fc, self.I.sym(ep, s[2]), els[0], where + '[i]')
                continue
            if s[0] in ('map', 'all') and (s[1] != P or s[4:5] == ('full',)) and not has_top(s):
                return self.diff(where, v, 'one entry per element of %s, in order' % self.pname(P))
            self.unk.append('%s: sequence not understood (%s)' % (where, s[0]))
            return
        if not done:
            if any(k[0] in ('len', 'empty') and len(k) > 1 and k[1] == P for k in facts):
                self.unk.append(where + ': length facts')
                return
            self.diff(where, v, 'one entry per element of ' + self.pname(P))

    def under(self, facts, P):
        out = []
        for k, vs in facts.items():
            if k[0] == 'var' and starts(k[1], P) and len(vs) == 1:
                t = V(self.I, k[1], '').ty
                out.append('')
        return ''

    def named(self, facts, v, spec, where):
        """v must be the type which the written name `pieces` with arguments denotes"""
        pieces, args = spec[1], spec[2]
        l = lit_of(('s', pieces))
        if l is None:
            l = facts.get(('seq', pieces))
            if l is not None:
                v = subst(v, pieces, l)
        if l is not None:
            return self.m(facts, v, denoted(self.I, l, args), where)
        # unknown name: every candidate compatible with what this path assumes about it
        strange = [k for k in facts if k[0] not in ('var', 'sne', 'pre', 'isnum', 'empty', 'some') and mentions(k, pieces)]
        strange += [k for k in facts if k[0] == 'isnum' and k[1] != (('strip', pieces, 'ByStr'),) and mentions(k, pieces)]
        if strange:
            self.unk.append('%s: condition on a type name not understood: %s' % (where, strange[0][0]))
            return
        cands = [c for c in CANDIDATES if compatible(facts, pieces, c) and possible(pieces, c)]
        for c in cands:
            self.m(facts, subst(v, pieces, c), denoted(self.I, c, args), where + ' written ' + c)
            if self.diffs or self.unk:
                return
        # any further name
        if any(k[0] == 'isnum' and b for k, b in facts.items()):
            if not (v[0] == 'adt' and v[1] == TYPE and self.I.ty(TYPE)['variants'][v[2]]['name'] == 'ByStrX' and v[3] == (('num', 'parse', ('s', (('strip', pieces, 'ByStr'),))),)):
                self.diff(where, v, 'ByStrX of the written size')
            return
        self.m(facts, v, ('adt', TYPE, 'Other', {'0': ('str', lambda f: [(f, pieces)])}), where)


def compatible(facts, pieces, c):
    if c in facts.get(('sne', pieces), ()):
        return False
    for k, b in facts.items():
        if k[0] == 'pre' and k[1] == pieces and c.startswith(k[2]) != b:
            return False
        if k[0] == 'isnum' and k[1] == (('strip', pieces, 'ByStr'),):
            if c.startswith('ByStr') and (c[5:].isdigit() and int(c[5:]) <= INTMAX.get(k[2], 0)) != b:
                return False
    return True


def possible(pieces, c):
    """can the pieces spell c?  (a qualified name contains the dot)"""
    import re
    rx = ''.join(re.escape(p[1]) if p[0] == 'lit' else '.*' for p in pieces)
    return re.fullmatch(rx, c) is not None


def subst(v, pieces, c):
    if v == ('s', pieces):
        return lit(c)
    if v == ('num', 'parse', ('s', (('strip', pieces, 'ByStr'),))):
        return ('i', int(c[5:])) if c.startswith('ByStr') and c[5:].isdigit() else v
    if isinstance(v, tuple):
        w = tuple(subst(x, pieces, c) if isinstance(x, tuple) else x for x in v)
        if w[:1] == ('num',) and len(w) == 4 and w[2][:1] == ('i',) and w[3][:1] == ('i',):
            r = {'Add': w[2][1] + w[3][1], 'Sub': w[2][1] - w[3][1], 'Mul': w[2][1] * w[3][1]}.get(w[1])
            return w if r is None else ('i', r)
        return w
    return v


def ty_adt(name, **fields):
    return ('adt', TYPE, name, {(k[1:] if k.startswith('_') else k): v for k, v in fields.items()})


def other(l):
    return ty_adt('Other', _0=('str', lambda f: [(f, lit(l)[1])]))


def denoted(I, l, args):
    """spec of the type denoted by the name l with argument specs"""
    if l in PRIM:
        return ty_adt(l) if not args else ('any',)
    if l.startswith('ByStr') and l[5:].isdigit():
        if l[5] == '0' or args or int(l[5:]) >= 1 << 32:
            return ('any',)
        return ty_adt('ByStrX', _0=('num', int(l[5:])))
    if l in ARITY:
        n = ARITY[l]
        if len(args) < n:
            return other(l)
        if len(args) > n:
            return ('any',)
        return ty_adt(l, **{'_%d' % i: a for i, a in enumerate(args)})
    return other(l)


# ------------------------------------------------------------------ denotation of type trees
class Unsupported(Exception):
    pass


TEXTS = {}      # texts of name nodes that stand for something else than a written name (used by typeprint)


def text_of(I, v, facts):
    """[(facts, pieces)]: text of the name tree v (value)"""
    v = unbox(v)
    if TEXTS and v[0] == 'sym' and v[1][:2] in TEXTS:
        return [(facts, TEXTS[v[1][:2]])]
    if v[0] == 's':
        return [(facts, v[1])]
    if v[0] == 'sym':
        return names(I, v[1], v[2], facts)
    k = I.ty(v[1])
    if k.get('path') == WMD:
        return text_of(I, v[3][field_index(I, v[1], 0, 'node')], facts)
    vd = k['variants'][v[2]]
    if vd['name'] == 'EventType':
        return [(facts, (('lit', 'Event'),))]
    if vd['name'] == 'ByteString' and not v[3]:
        return [(facts, (('lit', 'ByStr'),))]
    out = [(facts, ())]
    for i, x in enumerate(v[3]):
        nxt = []
        for fc, acc in out:
            for fc2, ps in text_of(I, x, fc):
                nxt.append((fc2, cat(acc, (('lit', '.'),) if i else (), ps)))
        out = nxt
    return out


def node_of(I, v):
    v = unbox(v)
    while v[0] == 'adt' and I.ty(v[1]).get('path') == WMD:
        v = unbox(v[3][field_index(I, v[1], 0, 'node')])
    return v


def denote(I, v, bad):
    """spec (a function of the facts) of the type denoted by the type tree v; unsupported constructs are added to bad"""
    v = node_of(I, v)
    if v[0] == 'sym':
        return ('T', V(I, v[1], v[2]).path)
    k = I.ty(v[1])
    short = v[1].rsplit('::', 1)[1]
    var = k['variants'][v[2]]['name']
    fs = v[3]

    def generic(name, args):
        sp = [denote(I, a, bad) for a in args]
        return ('fn', lambda facts: [(f, ('named', ps, sp)) for f, ps in text_of(I, name, facts)])

    def els(x):
        x = unbox(x)
        if all(s[0] == 'el' for s in x[1]):
            return [s[1] for s in x[1]]
        raise Anchor('list of unknown length')

    def mapt(a, b):
        return ty_adt('Map', _0=denote(I, a, bad), _1=denote(I, b, bad))
    if short == 'NodeAddressType':
        fld = lambda n: fs[field_index(I, v[1], 0, n)]
        lst = unbox(fld('address_fields'))

        def one(I, node):
            g = lambda n: node[3][field_index(I, node[1], 0, n)]
            return ('adt', 'crate::field::Field', 'Field', {'name': ('str', lambda f: text_of(I, g('identifier'), f)), 'type': denote(I, g('type_name'), bad)})
        if all(s[0] == 'el' for s in lst[1]):
            fspec = ('list', [one(I, node_of(I, s[1])) for s in lst[1]])
        else:
            P, ety = lst[1][0][1], lst[1][0][2]

            def fn(I, ep, facts):
                e = V(I, ep, ety)
                ip, it = e.raw('identifier')
                return [(facts, [('adt', 'crate::field::Field', 'Field', {'name': ('str', lambda f: names(I, ip, it, f)), 'type': ('T', e.f('type_name').path)})])]
            fspec = ('seq', P, fn)
        return ('fn', lambda facts: [(f, ty_adt('ByStr20With', type_name=('str', lambda f2: text_of(I, fld('type_name'), f2)), fields=('adt', 'crate::field::FieldList', 'FieldList', {'0': fspec}))
                                      if ps == (('lit', 'ByStr20'),) else ('any',)) for f, ps in text_of(I, fld('identifier'), facts)])
    if var in ('GenericTypeWithArgs', 'TypeMapValueWithArgs'):
        return generic(fs[0], els(fs[1]))
    if var in ('MapType', 'MapTypeArgument', 'MapKeyValueType'):
        return mapt(fs[0], fs[1])
    if short == 'NodeTypeMapEntry':
        return mapt(fs[field_index(I, v[1], 0, 'key')], fs[field_index(I, v[1], 0, 'value')])
    if var in ('FunctionType', 'PolyFunctionType', 'TypeVarType', 'TemplateTypeArgument'):
        bad.append(var)
        return ('any',)
    if var in ('GenericTypeArgument', 'GenericMapKey', 'EnclosedGenericId', 'MapValueTypeOrEnumLikeIdentifier', 'GenericMapValueArgument'):
        return generic(fs[0], [])
    if len(fs) == 1:
        return denote(I, fs[0], bad)
    raise Anchor('unknown form of type node: %s::%s' % (short, var))


# ------------------------------------------------------------------ building trees
class B:
    """builds trees: sym by default, with parts replaced"""

    def __init__(self, I):
        self.I = I

    def wmd(self, path, ty, fn):
        """the value at path of type ty (possibly WithMetaData/Box), its inner node built by fn(path, ty)"""
        I = self.I
        k = I.ty(ty)
        if k.get('box'):
            return ('box', self.wmd(path, k['args'][0], fn))
        I.symty[path] = ty
        if k.get('path') == WMD:
            return ('adt', ty, 0, tuple(self.wmd(path + (('f', 0, i),), f['ty'], fn) if f['name'] == 'node' else I.sym(path + (('f', 0, i),), f['ty']) for i, f in enumerate(k['variants'][0]['fields'])))
        return fn(path, ty)

    def rec(self, path, ty, variant=None, **over):
        """struct / variant at path with overridden fields: name -> fn(path, ty)"""
        I = self.I
        k = I.ty(ty)
        vi = 0
        if variant is not None:
            vi = next((i for i, v in enumerate(k['variants']) if v['name'] == variant), None)
            if vi is None:
                raise Anchor('%s has no variant %s' % (ty, variant))
        fs = k['variants'][vi]['fields']
        for n in over:
            if n.lstrip('_') not in [f['name'] for f in fs]:
                raise Anchor('%s has no field %s' % (ty, n))
        out = []
        for i, f in enumerate(fs):
            fn = over.get(f['name']) or over.get('_' + f['name'])
            p = path + (('f', vi, i),)
            out.append(self.wmd(p, f['ty'], fn) if fn else I.sym(p, f['ty']))
        return ('adt', ty, vi, tuple(out))

    def lst(self, *fns):
        def go(path, ty):
            k = self.I.ty(ty)
            et = k['args'][0]
            return ('vec', tuple(('el', self.wmd(path + (('n', i),), et, fn)) for i, fn in enumerate(fns)))
        return go

    def sym(self, path, ty):
        return self.I.sym(path, ty)

    def lit(self, s):
        return lambda path, ty: lit(s)

    def form(self, variant, **over):
        return lambda path, ty: self.rec(path, ty, variant, **over)

    def none(self, path, ty):
        return ('adt', ty, 0, ())

    # ---- names
    def tni(self, s):
        return self.form('TypeOrEnumLikeIdentifier', _0=self.lit(s))

    def tbs(self, s):
        return self.form('ByteStringType', _0=self.form('Type', _0=self.lit(s)))

    def name(self, s):
        """MetaIdentifier spelled s"""
        if s == 'ByStr':
            return self.form('ByteString')
        if s.startswith('0x'):
            a, b = s.split('.')
            return self.form('MetaNameInHexspace', _0=self.lit(a), _1=self.simple(b))
        if '.' in s:
            a, b = s.split('.')
            return self.form('MetaNameInNamespace', _0=self.simple(a), _1=self.simple(b))
        return self.form('MetaName', _0=self.simple(s))

    def simple(self, s):
        if s == 'Event':
            return self.form('EventType')
        if s.startswith('ByStr') and s[5:].isdigit():
            return self.tbs(s)
        return self.tni(s)

    # ---- programs with one declaration of type t, in the given context
    def program(self, ctx, t):
        typed = lambda: self.form(None, annotation=self.form(None, type_name=t))
        pair = self.form(None, identifier_with_type=typed())
        empty = self.lst()
        params = self.form(None, parameters=self.lst(pair) if ctx == 'parameter' else empty)
        trans = self.form('TransitionComponent', _0=self.form(None, name=self.form('WithRegularId', _0=self.lit('Tr')), parameters=self.form(None, parameters=self.lst(pair))))
        cd = self.form(None, contract_name=self.tni('C'), parameters=params, constraint=self.none,
                       fields=self.lst(self.form(None, typed_identifier=typed())) if ctx == 'field' else empty,
                       components=self.lst(trans) if ctx == 'transition parameter' else empty)
        return self.rec(('prog',), PROG, None, contract_definition=cd, import_declarations=self.none, library_definition=self.none)


def contract_spec(I, tree):
    """spec of the contract for the program value `tree`"""
    cd = V(I, ('prog',), PROG).f('contract_definition')
    F, T = 'crate::field::', 'crate::transition::'

    def fieldspec(I, p, t):
        v = V(I, p, t)
        return ('adt', F + 'Field', 'Field', {'name': ('str', lambda f: [(f, (v.f('identifier_name').str(),))]), 'type': ('T', v.f('annotation').f('type_name').path)})

    def pairs(P, t):
        return ('adt', F + 'FieldList', 'FieldList', {'0': ('seq', P, lambda I, ep, facts: [(facts, [fieldspec(I, *V(I, ep, t).raw('identifier_with_type'))])])})
    pv = cd.f('parameters')
    pp, pt = pv.raw('parameters')
    fp, ft = cd.raw('fields')
    cp, ct = cd.raw('components')
    nm = cd.raw('contract_name')
    elt = lambda t: I.ty(t)['args'][0]

    def comp(I, ep, facts):
        v = V(I, ep, elt(ct))
        out = []
        for vi, vd in enumerate(v.k['variants']):
            fc = restrict(facts, v.path, vi)
            if fc is None:
                continue
            if vd['name'] == 'TransitionComponent':
                t = v.f('0', 'TransitionComponent')
                np, nt = t.raw('name')
                q = t.f('parameters')
                qp, qt = q.raw('parameters')
                out.append((fc, [('adt', T + 'Transition', 'Transition', {'name': ('str', lambda f: names(I, np, nt, f)), 'params': pairs(qp, elt(qt))})]))
            elif vd['name'] == 'ProcedureComponent':
                out.append((fc, []))
            else:
                raise Anchor('unknown component ' + vd['name'])
        return out
    return {'name': ('str', lambda f: names(I, nm[0], nm[1], f)),
            'init_params': pairs(pp, elt(pt)),
            'fields': ('adt', F + 'FieldList', 'FieldList', {'0': ('seq', fp, lambda I, ep, facts: [(facts, [fieldspec(I, *V(I, ep, elt(ft)).raw('typed_identifier'))])])}),
            'transitions': ('adt', T + 'TransitionList', 'TransitionList', {'0': ('seq', cp, comp)})}


def analysed(I, ck):
    ck.cov['functions_analysed'] = sorted(set(ck.cov.get('functions_analysed', [])) | set(x for x in I.analysed if x.startswith(('crate', '<crate'))))[:2000]
    ck.cov['unmodelled_calls'] = sorted(set(ck.cov.get('unmodelled_calls', [])) | set(I.unmodelled))


def is_err_value(v):
    """the converter's own error: an error string that is not the propagated one of a part"""
    return True


def outcome_kind(I, o):
    """('ok', contract) | ('err', value) | ('panic', info) | ('undet', why)"""
    if o[0] == 'ret':
        v = o[2]
        if v[0] == 'adt' and v[1].startswith('core::result::Result<'):
            return ('ok', v[3][0]) if v[2] == 0 else ('err', v[3][0])
        return ('undet', 'result not known')
    if o[0] == 'panic':
        return ('panic', o[2])
    return ('undet', str(o[2]))


def err_marker(v):
    """paths of the propagated part errors in a value"""
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'err':
                out.append(x[1:])
                return
            for y in x:
                go(y)
    go(v)
    return out


def panic_text(info):
    if isinstance(info, tuple):
        return '%s at %s' % (info[1] if len(info) > 1 else '', info[2] if len(info) > 2 else '')
    return str(info)


def check_c02(m, prods, ck):
    C = Conv(m)
    E0 = 'Contract::from_str'
    try:
        with common.limit(120):
            I, outs = C.run(lambda I: I.sym(('prog',), PROG))
        analysed(I, ck)
    except Budget as e:
        ck.unknown(E0, str(e))
        I, outs = C.interp(None), []
    oks = 0
    specs = contract_spec(I, None)
    for o in outs:
        st = o[1]
        kind = outcome_kind(I, o)
        mt = Match(I, PROG)
        if kind[0] == 'undet' or st.und:
            ck.unknown(E0, '%s' % (kind[1] if kind[0] == 'undet' else st.und[0]))
            continue
        if kind[0] == 'panic':
            ck.bad(E0, 'the conversion of a syntax tree panics: ' + panic_text(kind[1]))
            continue
        if kind[0] == 'err':
            if err_marker(kind[1]):
                ck.ok()
            elif has_top(kind[1]):
                ck.unknown(E0, 'error not known')
            else:
                ck.bad(E0, 'a syntax tree with supported types is turned into the error %s' % mt.show(kind[1]))
            continue
        oks += 1
        cv = kind[1]
        if cv[0] != 'adt':
            ck.unknown(E0, 'contract not known')
            continue
        names_ = [f['name'] for f in I.ty(cv[1])['variants'][0]['fields']]
        for n, sp in specs.items():
            if n not in names_:
                raise Anchor('Contract has no field ' + n)
            mt = Match(I, PROG)
            mt.m(st.facts, cv[3][names_.index(n)], sp, 'Contract.' + n)
            for w, d in mt.diffs[:2]:
                ck.bad(E0, '%s %s' % (w, d))
            if not mt.diffs:
                if mt.unk:
                    ck.unknown(E0, mt.unk[0])
                else:
                    ck.ok(mt.n)
    holder = Interp(m)
    jobs = [(d, ctx, fn) for d, ctxs, fn in forms(B(holder)) for ctx in ctxs]
    for r, a, u in common.pmap(lambda j: c03_form(m, holder, *j, pid='C02'), jobs):
        for x in r:
            getattr(ck, x[0])(*x[1:])
    ck.cov['type_forms_in_context'] = len(jobs)
    import scenes
    scenes.check(m, ck, ck.tier)
    ck.sample('%d ways through the conversion of an arbitrary program, %d of them successful' % (len(outs), oks))
    ck.cov['paths'] = len(outs)
    ck.cov['type_nodes_by_induction'] = C.cutcalls
    if not oks and not ck.viol:
        if ck.undet:
            return
        ck.bad(E0, 'no way through the conversion gives a contract')



NAMES = sorted(PRIM) + sorted(ARITY) + ['ByStr1', 'ByStr32', 'ByStr33', 'ByStr300', 'ByStr99999999999999999999999', 'Event', 'Unit', 'MyType', 'ByStrange', 'Foo.Bar', 'Foo.Bool', '0x1a.Foo', 'Lib.Option', 'ByStr32Foo']


def forms(b):
    """[(context description, contexts, fn building a NodeScillaType)]"""
    F, L, S = b.form, b.lst, b.sym
    gen = lambda n, *args: F('GenericTypeWithArgs', _0=n if callable(n) else b.name(n), _1=L(*args))
    out = []
    ALL = ('field', 'parameter', 'transition parameter')

    def add(d, fn, ctx=('field',)):
        out.append((d, ctx, fn))
    # names and arities
    for n in range(4):
        add('any name with %d arguments' % n, gen(S, *[S] * n), ALL if n == 0 else ('field', 'transition parameter'))
    for nm in NAMES:
        for n in range(4):
            if n == 0 or nm in ARITY or nm == 'MyType':
                add('%s with %d arguments' % (nm, n), gen(nm, *[S] * n))
    add('Map with key and value', F('MapType', _0=S, _1=S), ALL)
    add('parenthesised type', F('EnclosedType', _0=S), ALL)
    add('parenthesised type twice', F('EnclosedType', _0=F('EnclosedType', _0=S)))

    def addr(kind, *fields, ident='ByStr20'):
        return F(None, identifier=b.simple(ident), type_name=b.lit(kind), address_fields=L(*fields))
    fld = F(None, identifier=S, type_name=S)
    fldn = F(None, identifier=F('VariableName', _0=b.lit('x')), type_name=gen('Uint128'))
    addrs = [('address without kind', addr('')), ('library address', addr('library')), ('contract address', addr('contract')), ('contract address with a field', addr('contract', fld)),
             ('contract address with two fields', addr('contract', fld, fldn)), ('address of any kind with any fields', F(None, identifier=b.simple('ByStr20'), type_name=S, address_fields=S))]
    for d, a in addrs:
        add(d, F('ScillaAddresseType', _0=a), ALL)
    add('function type', F('FunctionType', _0=S, _1=S), ALL)
    add('polymorphic type', F('PolyFunctionType', _0=S, _1=S), ALL)
    add('type variable', F('TypeVarType', _0=S), ALL)
    # arguments
    args = [('parenthesised argument', F('EnclosedTypeArgument', _0=S)), ('named argument', F('GenericTypeArgument', _0=S)), ('type variable argument', F('TemplateTypeArgument', _0=S)),
            ('Map argument', F('MapTypeArgument', _0=S, _1=S))] + [(d + ' as argument', F('AddressTypeArgument', _0=a)) for d, a in addrs]
    args += [('argument ' + n, F('GenericTypeArgument', _0=b.name(n))) for n in NAMES]
    for d, a in args:
        add(d + ' of Option', gen('Option', a), ('field', 'transition parameter'))
        add(d + ' first of Pair', gen('Pair', a, S))
        add(d + ' second of Pair', gen('Pair', S, a))
    add('list of pairs of any types', gen('List', F('EnclosedTypeArgument', _0=gen('Pair', S, S))))
    add('option of a map of any types', gen('Option', F('EnclosedTypeArgument', _0=F('MapType', _0=S, _1=S))))
    # map keys and values
    keys = [('named key', F('GenericMapKey', _0=S)), ('parenthesised named key', F('EnclosedGenericId', _0=S))]
    keys += [(d + ' as key', F('AddressMapKeyType', _0=a)) for d, a in addrs] + [(d + ' in parentheses as key', F('EnclosedAddressMapKeyType', _0=a)) for d, a in addrs[:3]]
    keys += [('key ' + n, F('GenericMapKey', _0=b.name(n))) for n in NAMES]
    noargs = lambda x: F('MapValueParenthesizedType', _0=F('TypeMapValueNoArgs', _0=x))
    withargs = lambda n, *a: F('MapValueParenthesizedType', _0=F('TypeMapValueWithArgs', _0=n if callable(n) else b.name(n), _1=L(*a)))
    entry = F(None, key=S, value=S)
    gv = lambda n: F('MapValueTypeOrEnumLikeIdentifier', _0=n if callable(n) else b.name(n))
    vals = [('named value', gv(S)), ('map value', F('MapKeyValue', _0=entry)), ('any parenthesised value', F('MapValueParenthesizedType', _0=S)),
            ('parenthesised simple value', noargs(S)), ('parenthesised named value', noargs(gv(S))),
            ('doubly parenthesised value', noargs(F('MapValueParenthesizedType', _0=S))), ('parenthesised map value', noargs(F('MapKeyValue', _0=entry))),
            ('parenthesised address value', noargs(F('MapValueAddressType', _0=addr('contract', fld))))]
    vals += [(d + ' as value', F('MapValueAddressType', _0=a)) for d, a in addrs]
    vals += [('value ' + n, gv(n)) for n in NAMES]
    for n in range(4):
        vals.append(('value of any name with %d arguments' % n, withargs(S, *[S] * n)))
        for nm in sorted(ARITY) + ['MyType', 'Foo.Option']:
            vals.append(('value %s with %d arguments' % (nm, n), withargs(nm, *[S] * n)))
    vargs = [('parenthesised', F('EnclosedTypeMapValue', _0=S)), ('named', F('GenericMapValueArgument', _0=S)), ('map', F('MapKeyValueType', _0=S, _1=S)), ('ByStr20', F('GenericMapValueArgument', _0=b.name('ByStr20'))),
             ('ByStr', F('GenericMapValueArgument', _0=b.name('ByStr'))), ('Event', F('GenericMapValueArgument', _0=b.name('Event')))]
    for d, a in vargs:
        vals.append(('value Option of %s argument' % d, withargs('Option', a)))
        vals.append(('value Pair with %s first argument' % d, withargs('Pair', a, S)))
        vals.append(('value Pair with %s second argument' % d, withargs('Pair', S, a)))
    vals.append(('map value of a map value', F('MapKeyValue', _0=F(None, key=S, value=F('MapKeyValue', _0=entry)))))
    for d, k in keys:
        add('Map with ' + d, F('MapType', _0=k, _1=S), ('field', 'transition parameter') if 'named' in d else ('field',))
        add('Map in a map with ' + d, F('MapType', _0=S, _1=F('MapKeyValue', _0=F(None, key=k, value=S))))
    for d, x in vals:
        add('Map with ' + d, F('MapType', _0=S, _1=x), ('field', 'transition parameter') if 'any' in d or 'map' in d else ('field',))
        add('Map argument with ' + d, gen('Option', F('MapTypeArgument', _0=S, _1=x)))
    return out


def c03_form(m, holder, d, ctx, fn, pid='C03'):
    """[(kind, construct, text)] for one form in one context"""
    E0 = '%s as type of a %s' % (d, ctx)
    res = []
    C = Conv(m)
    try:
        tv = B(holder).program(ctx, fn)
        with common.limit(60):
            I, outs = C.run(tv, errors=False, budget=250000)
    except Budget as e:
        return [('unknown', E0, str(e))], (), ()
    bad = []
    spec = denote(I, find_type(I, tv, ctx), bad)
    for o in outs:
        st = o[1]
        kind = outcome_kind(I, o)
        mt = Match(I, PROG)
        if kind[0] == 'undet' or st.und:
            res.append(('unknown', E0, '%s' % (kind[1] if kind[0] == 'undet' else st.und[0])))
            continue
        if kind[0] == 'panic':
            res.append(('bad', E0, 'its conversion panics: ' + panic_text(kind[1])))
            continue
        if bad and pid == 'C02':
            continue
        if bad:
            if kind[0] == 'err':
                res.append(('ok', 1))
            else:
                res.append(('bad', E0, 'is accepted instead of being rejected with an error: ' + mt.show(kind[1])[:300]))
            continue
        if kind[0] == 'err':
            if has_top(kind[1]):
                res.append(('unknown', E0, 'error not known'))
            else:
                res.append(('bad', E0, 'is rejected with the error %s' % mt.show(kind[1])))
            continue
        if pid == 'C02':
            sp = one_decl_spec(I, tv, ctx)
            cn = [f['name'] for f in I.ty(kind[1][1])['variants'][0]['fields']] if kind[1][0] == 'adt' else []
            for n, x in sp.items():
                if n in cn:
                    mt.m(st.facts, kind[1][3][cn.index(n)], x, 'Contract.' + n)
            for w, x in mt.diffs[:1]:
                res.append(('bad', E0, '%s %s' % (w, x)))
            if not mt.diffs:
                res.append(('unknown', E0, mt.unk[0]) if mt.unk else ('ok', mt.n))
            continue
        tv2 = contract_type(I, kind[1], ctx)
        if tv2 is None or has_top(tv2):
            res.append(('unknown', E0, 'the resulting contract is not known'))
            continue
        mt.m(st.facts, tv2, spec, 'its type')
        for w, x in mt.diffs[:1]:
            res.append(('bad', E0, '%s %s' % (w, x)))
        if not mt.diffs:
            res.append(('unknown', E0, mt.unk[0]) if mt.unk else ('ok', mt.n))
    return res, tuple(x for x in I.analysed if x.startswith(('crate', '<crate'))), tuple(I.unmodelled)


def check_c03(m, prods, ck):
    holder = Interp(m)
    jobs = [(d, ctx, fn) for d, ctxs, fn in forms(B(holder)) for ctx in ctxs]
    ana, unm = set(), set()
    for r, a, u in common.pmap(lambda j: c03_form(m, holder, *j), jobs):
        ana |= set(a)
        unm |= set(u)
        for x in r:
            getattr(ck, x[0])(*x[1:])
    ck.cov['functions_analysed'] = sorted(ana)[:2000]
    ck.cov['unmodelled_calls'] = sorted(unm)
    ck.cov['type_forms_in_context'] = len(jobs)
    import termconv
    termconv.check(m, prods, ck)
    for d, ctx, fn in jobs[:len(jobs):max(1, len(jobs) // 10)]:
        ck.sample('%s as type of a %s' % (d, ctx))


def one_decl_spec(I, tree, ctx):
    """the contract for the program with one declaration, its type left open"""
    ti = find_type(I, tree, ctx, True)
    nm = ti[3][field_index(I, ti[1], 0, 'identifier_name')]
    F, T = 'crate::field::', 'crate::transition::'
    fld = ('adt', F + 'Field', 'Field', {'name': ('str', lambda f: text_of(I, nm, f))})
    fl = lambda *x: ('adt', F + 'FieldList', 'FieldList', {'0': ('list', list(x))})
    text = lambda t: ('str', lambda f: [(f, lit(t)[1])])
    tr = ('adt', T + 'Transition', 'Transition', {'name': text('Tr'), 'params': fl(fld)})
    return {'name': text('C'), 'init_params': fl(fld) if ctx == 'parameter' else fl(), 'fields': fl(fld) if ctx == 'field' else fl(),
            'transitions': ('adt', T + 'TransitionList', 'TransitionList', {'0': ('list', [tr] if ctx == 'transition parameter' else [])})}


def find_type(I, tree, ctx, typed=False):
    """the type tree inside the built program"""
    cd = node_of(I, tree[3][field_index(I, tree[1], 0, 'contract_definition')])
    g = lambda v, n: node_of(I, v[3][field_index(I, v[1], v[2], n)])
    first = lambda v: node_of(I, unbox(v)[1][0][1])
    if ctx == 'field':
        ti = g(first(cd[3][field_index(I, cd[1], 0, 'fields')]), 'typed_identifier')
    else:
        if ctx == 'parameter':
            ps = g(cd, 'parameters')
        else:
            tr = node_of(I, first(cd[3][field_index(I, cd[1], 0, 'components')])[3][0])
            ps = g(tr, 'parameters')
        ti = g(first(ps[3][field_index(I, ps[1], 0, 'parameters')]), 'identifier_with_type')
    return ti if typed else g(g(ti, 'annotation'), 'type_name')


def contract_type(I, cv, ctx):
    """type of the only field / parameter in the contract value"""
    def fld(v, n):
        v = unbox(v)
        if v[0] != 'adt':
            return None
        return v[3][field_index(I, v[1], v[2], n)]

    def only(v):
        l = fld(v, '0')
        if l is None or l[0] != 'vec' or len(l[1]) != 1 or l[1][0][0] != 'el':
            return None
        return l[1][0][1]
    try:
        if ctx == 'field':
            f = only(fld(cv, 'fields'))
        elif ctx == 'parameter':
            f = only(fld(cv, 'init_params'))
        else:
            f = only(fld(only(fld(cv, 'transitions')), 'params'))
        return fld(f, 'type')
    except (TypeError, IndexError):
        return None


if __name__ == '__main__':
    import build, time, common
    m, p, k = build.load()
    for pid, fn in (('C02', check_c02), ('C03', check_c03)):
        ck = common.Check(pid, 'x')
        t = time.time()
        fn(m, p, ck)
        print(pid, ck.obl, ck.disch, len(ck.undet), ck.undet[:5], len(ck.viol), ck.viol[:8], time.time() - t, ck.cov.get('unmodelled_calls'), ck.samples)
