"""C02: programs whose declared names are known, for conditions that compare or take apart names.

The conversion is interpreted on programs with certain names (next to each other: equal, prefixes of each other, differing
in case, out of order; and names made of the texts that occur in the code) and the whole contract is compared."""
import common
from interp import *
from emitter import Conv, B, Match, PROG, Anchor, A, node_of, denote, outcome_kind, panic_text, has_top, field_index, denoted, lexspell

LOWER = set('abcdefghijklmnopqrstuvwxyz')
WORD = LOWER | set(c.upper() for c in LOWER) | set('0123456789_')


def is_id(s):
    return bool(s) and s[0] in LOWER and set(s) <= WORD and s not in lexspell()


def is_type(s):
    return bool(s) and s[0].isupper() and set(s) <= WORD and s not in lexspell() and not (s.startswith('ByStr') and s[5:].isdigit()) and s != 'Event'


STYLES = ['x', 'owner', 'totalSupply', 'total_supply', 'a__b', 'trailing_', 'n1', 'n10', 'n9', 'v2', 'b64', 'uint128', 'string', 'map', 'list', 'option', 'bystr20', 'init', 'fields', 'name', 'this',
          'sender', 'balance', 'creation_block', 'scilla_version', 'test', 'internal', 'private', 'tmp', 'unused', 'deprecated', 'aBC', 'aB', 'abc', 'aLLCAPS', 'x86', 'type_', 'end1', 'main', 'constructor']
STYLES += ['a' * n for n in (2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300)]
PAIRS = [('a', 'b'), ('b', 'a'), ('x', 'x'), ('ab', 'a'), ('a', 'ab'), ('owner', 'oWNER'), ('ab', 'aB'), ('aB', 'ab'), ('a_b', 'ab'), ('n9', 'n10'), ('n10', 'n9'), ('n1', 'n01'), ('aaaa', 'bb'), ('bb', 'aaaa'), ('x', 'x_'), ('yx', 'x')]
TYPES = ['Uint128', 'String', 'ByStr20', 'Bool', 'MyType']


def strings(mir):
    """texts and numbers in the code outside the scanner and parser"""
    out, ints = set(), set()

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'str' and isinstance(x[1], str):
                out.add(x[1])
            elif len(x) == 2 and x[0] == 'int' and isinstance(x[1], int):
                ints.add(x[1])
            elif len(x) == 2 and x[0] == 'char':
                out.add(x[1] if isinstance(x[1], str) else chr(x[1]))
            for y in x:
                go(y)
        elif isinstance(x, dict):
            for y in x.values():
                go(y)
    for n, f in mir['funcs'].items():
        if f.get('local') and f.get('body') and not f.get('derived') and 'crate::parser::' not in n:
            go(f['body'])
    go(mir.get('statics'))
    return sorted(x for x in out if len(x) <= 40), sorted(v for v in ints if 3 < v <= 600)


def from_texts(texts):
    """names made of texts of the code"""
    ids, tys = [], []
    words = set()
    for t in texts:
        if not any(c.isspace() or c in '{}' for c in t):
            words |= set(''.join(c if c in WORD else ' ' for c in t).split())
    for w in sorted(words):
        for x in (w, 'x' + w, w + 'x', 'x' + w + 'y', w.lower(), 'x_' + w, w + '_x', 'x' + w + w, w + w):
            ids.append(x)
        c = w[:1].upper() + w[1:]
        for x in (w, c, 'X' + w, w + 'X', c + 'x', 'Xy' + w, 'X' + w + 'y', 'X' + w + w, c + c, 'X_' + w):
            tys.append(x)
    return sorted(set(filter(is_id, ids))), sorted(set(filter(is_type, tys)))


class Scene:
    def __init__(self, name='C', params=(), fields=(), comps=()):
        self.name, self.params, self.fields, self.comps = name, list(params), list(fields), list(comps)

    def describe(self):
        ds = lambda ds: ', '.join('%s : %s' % d for d in ds[:6]) + (' ... (%d)' % len(ds) if len(ds) > 6 else '')
        cs = '; '.join('%s %s (%s)' % (k, n, ds(p)) for k, n, p in self.comps[:4]) + (' ... (%d)' % len(self.comps) if len(self.comps) > 4 else '')
        return 'contract %s (%s)%s%s' % (self.name, ds(self.params), ' fields ' + ds(self.fields) if self.fields else '', ' ' + cs if cs else '')

    def build(self, b):
        F, L = b.form, b.lst
        typ = lambda t: F('GenericTypeWithArgs', _0=b.name(t), _1=L())
        typed = lambda d: F(None, identifier_name=b.lit(d[0]), annotation=F(None, type_name=typ(d[1])))
        pair = lambda d: F(None, identifier_with_type=typed(d))
        params = lambda ds: F(None, parameters=L(*[pair(d) for d in ds]))
        value = F('ExpressionAtomic', _0=F('AtomicSid', _0=F('VariableName', _0=b.lit('zero'))))

        def comp(c):
            k, n, ds = c
            nm = F('WithRegularId', _0=b.lit(n)) if is_id(n) else F('WithTypeLikeName', _0=b.tni(n))
            return F({'transition': 'TransitionComponent', 'procedure': 'ProcedureComponent'}[k], _0=F(None, name=nm, parameters=params(ds), body=F(None, statement_block=b.none)))
        cd = F(None, contract_name=b.tni(self.name), parameters=params(self.params), constraint=b.none,
               fields=L(*[F(None, typed_identifier=typed(d), right_hand_side=value) for d in self.fields]),
               components=L(*[comp(c) for c in self.comps]))
        return b.rec(('prog',), PROG, None, contract_definition=cd, import_declarations=b.none, library_definition=b.none)

    def spec(self, I):
        F, T = 'crate::field::', 'crate::transition::'
        text = lambda t: ('str', lambda f: [(f, lit(t)[1])])
        fld = lambda d: ('adt', F + 'Field', 'Field', {'name': text(d[0]), 'type': denoted(I, d[1], [])})
        fl = lambda ds: ('adt', F + 'FieldList', 'FieldList', {'0': ('list', [fld(d) for d in ds])})
        trs = [('adt', T + 'Transition', 'Transition', {'name': text(n), 'params': fl(ds)}) for k, n, ds in self.comps if k == 'transition']
        return {'name': text(self.name), 'init_params': fl(self.params), 'fields': fl(self.fields), 'transitions': ('adt', T + 'TransitionList', 'TransitionList', {'0': ('list', trs)})}


def scenes(texts, ints, tier):
    ids, tys = from_texts(texts)
    out = []
    U = TYPES[0]
    pairs = list(PAIRS)
    rot = lambda ns: [(n, TYPES[i % len(TYPES)]) for i, n in enumerate(ns)]

    def everywhere(ds, es, name='C'):
        """the declarations in every list, one list at a time"""
        out.append(Scene(name, fields=ds))
        out.append(Scene(name, params=ds))
        out.append(Scene(name, comps=[('transition', 'tr', ds)]))
        out.append(Scene(name, comps=[('transition', n, es[i % len(es)]) for i, (n, t) in enumerate(ds)]))
        out.append(Scene(name, comps=[('transition' if i % 2 else 'procedure', n, es[i % len(es)]) for i, (n, t) in enumerate(ds)]))
    for a, b in pairs:
        everywhere([(a, U), (b, U)], [()])
        everywhere([(a, U), (b, TYPES[1])], [[(a, U)], [(b, TYPES[1])]])
        everywhere([(a, TYPES[1]), ('z', U), (b, U)], [[(a, U)], [(a, U), (b, U)]])
    # the same names in different lists
    for n in ('x', 'tr', 'c'):
        d = [(n, U)]
        out.append(Scene(n.upper(), d, d, [('procedure', n, d), ('transition', n, d), ('transition', n, d), ('transition', n.upper(), d)]))
    # many declarations
    ints = sorted(ints, key=lambda v: (v > 300, v))[:40]
    for n in sorted({5, 9, 17, 33, 70} | {v + d for v in ints for d in (0, 1)}):
        ns = ['v%d' % (n - i) for i in range(n)]
        everywhere(rot(ns), [(), [('p', U)], [('q', U), ('p', TYPES[1])]])
    # names by themselves
    for names in (STYLES + ['a' * (v + d) for v in ints for d in (-1, 0, 1)], ids[:400]):
        for i in range(0, len(names), 40):
            everywhere(rot(names[i:i + 40]), [(), [('p', U)]])
    for n in ids[:60 if tier == 'quick' else 400] + STYLES[:20]:
        d = [(n, U)]
        out.append(Scene('C', d, d, [('transition', n, d)]))
    for n in ['C', 'c'.upper() * 2, 'HelloWorld', 'FungibleToken', 'Contract', 'A_b', 'T1', 'X' * 70] + tys[:400]:
        out.append(Scene(n, comps=[('transition', n, ())]))
    return out


def run_scene(m, sc):
    C = Conv(m)
    where = 'Contract::from_str for ' + sc.describe()
    res = []
    n = len(sc.fields) + len(sc.params) + sum(1 + len(c[2]) for c in sc.comps)
    try:
        with common.limit(30):
            I, outs = C.run(lambda I: sc.build(B(I)), errors=False, vislimit=n + 64, budget=150000 + 20000 * n)
    except Budget as e:
        return [('unknown', where, str(e))]
    for o in outs:
        st = o[1]
        kind = outcome_kind(I, o)
        if kind[0] == 'undet' or st.und:
            res.append(('unknown', where, '%s' % (kind[1] if kind[0] == 'undet' else st.und[0])))
        elif kind[0] == 'panic':
            res.append(('bad', where, 'the conversion of the syntax tree panics: ' + panic_text(kind[1])))
        elif kind[0] == 'err':
            if has_top(kind[1]):
                res.append(('unknown', where, 'error not known'))
            else:
                res.append(('bad', where, 'the program is rejected with the error ' + Match(I, PROG).show(kind[1])))
        else:
            mt = Match(I, PROG)
            cv = kind[1]
            names = [f['name'] for f in I.ty(cv[1])['variants'][0]['fields']] if cv[0] == 'adt' else []
            for n, x in sc.spec(I).items():
                if n in names:
                    mt.m(st.facts, cv[3][names.index(n)], x, 'Contract.' + n)
            for w, x in mt.diffs[:1]:
                res.append(('bad', where, '%s %s' % (w, x)))
            if not mt.diffs:
                res.append(('unknown', where, mt.unk[0]) if mt.unk or not names else ('ok', mt.n))
    return res


def check(m, ck, tier):
    texts, ints = strings(m)
    jobs = scenes(texts, ints, tier)
    for r in common.pmap(lambda sc: run_scene(m, sc), jobs):
        for x in r:
            getattr(ck, x[0])(*x[1:])
    ck.cov['programs_with_known_names'] = len(jobs)
    ck.cov['texts_of_the_code'] = len(texts)
    ck.cov['numbers_of_the_code'] = ints[:20]


if __name__ == '__main__':
    import build, time, emitter
    m, p, k = build.load()
    ck = common.Check('C02', 'x')
    t = time.time()
    check(m, ck, 'quick')
    print(ck.obl, ck.disch, len(ck.undet), ck.undet[:5], len(ck.viol), ck.viol[:8], time.time() - t, ck.cov)
