"""C03: whole types with known parts.  The text of a type is derived in the grammar, the semantic actions of the derivation
are interpreted, the conversion of the program with the resulting tree is interpreted, and the type must be the written one."""
import common, grammar, typeprint
from interp import *
from emitter import Conv, B, Anchor, Match, PROG, TYPE, contract_type, has_top, node_of, outcome_kind, panic_text, unbox
import random
from typeprint import terms, term_text, term_value, lex, derivations, Texts

CTX = ('field', 'transition parameter', 'parameter')


def texts_of(t, i):
    """ways to write the type"""
    c = term_text(t)
    out = [c]
    if c.startswith('('):
        out.append(c[1:-1])

    def parens(t):
        if isinstance(t, tuple) and t[0] not in ('ByStrX', 'Other', 'addr'):
            return '%s' % ' '.join([t[0]] + ['(%s)' % parens(x) for x in t[1:]])
        s = term_text(t)
        return s[1:-1] if s.startswith('(') else s
    if i % 3 == 0 and c.startswith('('):
        out.append('((%s))' % parens(t))
    return out


def tree(m, G, s):
    """the syntax trees of the text of a type"""
    toks = lex(s)
    syms = [('t', k, (('lit', x),)) for k, x in toks]
    out = []
    for form, d in derivations(G, 'ScillaType', syms):
        ev = Texts(m, G, {i: x[2] for i, x in enumerate(syms)})
        J = ev.interp()
        for st, v, a, b, p in ev.run(J, St({}), d, 0, form):
            if st.und:
                return None
            out.append(node_of(J, J.strip(st, v) if v[0] == 'ref' else v))
    return out


def plain(v):
    if isinstance(v, tuple):
        if v[:1] == ('box',):
            return plain(v[1])
        return tuple(plain(x) for x in v)
    return v


BAD = ["'A", '(Uint32 -> Bool)', "(forall 'A. 'A)", "(forall 'A. List 'A)", '(List Int32 -> List Int32)']


def unsupported(ts):
    """types with a part that has no meaning in an interface"""
    rnd = random.Random(11)
    out = [('Other', b) for b in BAD]

    def put(t, b):
        if isinstance(t, str) or t[0] in ('ByStrX', 'Other'):
            return ('Other', b)
        if t[0] == 'addr':
            if not t[2]:
                return ('addr', 'contract', (('f', ('Other', b)),))
            i = rnd.randrange(len(t[2]))
            return t[:2] + (tuple((n, put(x, b) if j == i else x) for j, (n, x) in enumerate(t[2])),)
        i = rnd.randrange(1, len(t)) if t[0] != 'Map' else 2
        return t[:i] + (put(t[i], b),) + t[i + 1:]
    for i, t in enumerate(rnd.sample(ts, min(len(ts), 300))):
        out.append(put(t, BAD[i % len(BAD)]))
    return out


def one(m, job):
    t, s, ctx, good = job
    where = '`%s` as type of a %s' % (s if len(s) < 200 else s[:200] + '...', ctx)
    G = grammar.Impl(typeprint.PRODS)
    G.minl = grammar.minlens(G.prods())
    res = []
    try:
        with common.limit(30):
            try:
                vs = tree(m, G, s)
            except grammar.Bad as e:
                return [('unknown', where, str(e.args[1]))]
            if not vs:
                return [('unknown', where, 'no syntax tree')] if good else []
            for v in vs:
                C = Conv(m)
                I, outs = C.run(lambda I: B(I).program(ctx, lambda p, ty: v), errors=False, budget=400000, vislimit=200)
                want = plain(term_value(I, t)) if good else None
                for o in outs:
                    kind = outcome_kind(I, o)
                    if kind[0] == 'undet' or o[1].und:
                        res.append(('unknown', where, '%s' % (kind[1] if kind[0] == 'undet' else o[1].und[0])))
                    elif kind[0] == 'panic':
                        res.append(('bad', where, 'its conversion panics: ' + panic_text(kind[1])))
                    elif kind[0] == 'err' and not good:
                        res.append(('ok', 1))
                    elif kind[0] == 'ok' and not good:
                        res.append(('unknown', where, 'contract not known') if has_top(kind[1]) else ('bad', where, 'is accepted instead of being rejected with an error'))
                    elif kind[0] == 'err':
                        res.append(('unknown', where, 'error not known') if has_top(kind[1]) else ('bad', where, 'is rejected with the error ' + Match(I, PROG).show(kind[1])))
                    else:
                        got = contract_type(I, kind[1], ctx)
                        if got is None or has_top(got) or not closed(plain(got)):
                            res.append(('unknown', where, 'the type in the contract is not known'))
                        elif plain(got) != want:
                            res.append(('bad', where, 'is %s in the contract' % Match(I, PROG).show(got)))
                        else:
                            res.append(('ok', 1))
    except Budget as e:
        res.append(('unknown', where, str(e)))
    return res


def closed(v):
    """is everything in the value known?"""
    if not isinstance(v, tuple):
        return True
    if v and v[0] == 'adt':
        return all(closed(x) for x in v[3])
    if v and v[0] == 'vec':
        return all(s[0] == 'el' and closed(s[1]) for s in v[1])
    if v and v[0] == 's':
        return lit_of(v) is not None
    return v[:1] == ('i',)


def check(m, prods, ck):
    import scenes
    typeprint.PRODS = prods
    ts = terms(ck.tier, *scenes.strings(m))
    jobs = []
    for i, t in enumerate(ts):
        for j, s in enumerate(texts_of(t, i)):
            for ctx in (CTX if i < 20 else CTX[(i + j) % 3:][:1]):
                jobs.append((t, s, ctx, True))
    for i, t in enumerate(unsupported(ts)):
        jobs.append((t, term_text(t), CTX[i % 3], False))
    for r in common.pmap(lambda j: one(m, j), jobs):
        for x in r:
            getattr(ck, x[0])(*x[1:])
    ck.cov['written_types'] = len(jobs)


if __name__ == '__main__':
    import build, time
    m, p, k = build.load()
    ck = common.Check('C03', 'x')
    t = time.time()
    check(m, p, ck)
    print(ck.obl, ck.disch, len(ck.undet), ck.undet[:5], len(ck.viol), ck.viol[:8], time.time() - t, ck.cov)
