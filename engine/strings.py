"""concrete evaluation of symbolic texts: search for names that tell two texts apart"""
import itertools, random

TRY = ['x', 'Foo', 'foo', 'ByStr', 'ByStr20', 'ByStrFoo', 'Event', 'event', '_this', '_x', '__x', 'x_', "'A", 'A', 'Map', 'Option', 'Uint256', 'a1', '0x12', '0xAB', 'contract',
       'aVeryLongNameThatGoesOnForMoreThanFortyCharacters', 'Foo_', 'X_y', 'ByStr70000', 'A_B_C', 'Aa0Aa0', 'LIST', 'List', 'fieldField', "x'"]
INTMAX = {'%s%s' % (p, n): 2 ** ((64 if n == 'size' else n) - (p == 'i')) - 1 for p in 'ui' for n in (8, 16, 32, 64, 128, 'size')}


def leaves(x, acc):
    """written texts that the pieces or conditions x mention"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'sp':
            acc.add(x)
        else:
            for y in x:
                leaves(y, acc)
    elif isinstance(x, frozenset):
        for y in x:
            leaves(y, acc)
    return acc


def needles(x, acc):
    """texts searched for by the functions in the pieces x, as far as they can be part of a written name"""
    if isinstance(x, tuple):
        if x[:1] == ('fun',) and len(x) == 4:
            for y in x[3]:
                if y[0] == 's' and len(y[1]) == 1 and y[1][0][0] == 'lit' and y[1][0][1].replace('_', 'a').isalnum() and y[1][0][1].isascii():
                    acc.add(y[1][0][1])
                elif y[0] == 'ch' and (y[1].isalnum() or y[1] == '_') and y[1].isascii():
                    acc.add(y[1])
        for y in x:
            needles(y, acc)
    return acc


class No(Exception):
    pass


def arg(v, asg):
    if v[0] == 's':
        return text(v[1], asg)
    if v[0] in ('ch', 'i', 'b'):
        return v[1]
    raise No(v[0])


def pat(a):
    if not isinstance(a, str):
        raise No('pattern')
    return a


def fun(fn, s, a):
    """the Rust string function fn"""
    if fn == 'to_lowercase':
        return s.lower()
    if fn == 'to_uppercase':
        return s.upper()
    if fn in ('to_ascii_lowercase', 'to_ascii_uppercase'):
        return ''.join((c.lower() if 'lower' in fn else c.upper()) if ord(c) < 128 else c for c in s)
    if fn in ('trim', 'trim_start', 'trim_end'):
        return {'trim': s.strip, 'trim_start': s.lstrip, 'trim_end': s.rstrip}[fn]()
    if fn in ('trim_start_matches', 'trim_left_matches'):
        p = pat(a[0])
        while p and s.startswith(p):
            s = s[len(p):]
        return s
    if fn in ('trim_end_matches', 'trim_right_matches'):
        p = pat(a[0])
        while p and s.endswith(p):
            s = s[:-len(p)]
        return s
    if fn == 'trim_matches':
        return fun('trim_end_matches', fun('trim_start_matches', s, a), a)
    if fn == 'replace':
        return s.replace(pat(a[0]), a[1])
    if fn == 'replacen':
        return s.replace(pat(a[0]), a[1], a[2])
    if fn == 'repeat':
        return s * a[0]
    if fn == 'before_first':
        return s.split(a[0], 1)[0]
    if fn == 'after_first':
        return s.split(a[0], 1)[1] if a[0] in s else s
    if fn == 'before_last':
        return s.rsplit(a[0], 1)[0] if a[0] in s else s
    if fn == 'after_last':
        return s.rsplit(a[0], 1)[-1]
    raise No(fn)


def number(v, asg):
    from interp import wrap
    if v[0] == 'i':
        return v[1]
    if v[:2] == ('num', 'cast'):
        return wrap(number(v[3], asg), v[2])
    if ('disp', v) in asg:
        return int(asg[('disp', v)])
    raise No(v[0])


def text(ps, asg):
    """concrete text of pieces under an assignment of the written texts"""
    out = ''
    for p in ps:
        if p[0] == 'lit':
            out += p[1]
        elif p in asg:
            out += asg[p]
        elif p[0] == 'strip':
            s = text(p[1], asg)
            if not s.startswith(p[2]):
                raise No()
            out += s[len(p[2]):]
        elif p[0] == 'stripend':
            s = text(p[1], asg)
            if not s.endswith(p[2]):
                raise No()
            out += s[:-len(p[2])] if p[2] else s
        elif p[0] == 'disp' and p[1][:2] == ('num', 'cast'):
            out += str(number(p[1], asg))
        elif p[0] == 'fun':
            out += fun(p[1], text(p[2], asg), [arg(a, asg) for a in p[3]])
        else:
            raise No(p[0])
    return out


def holds(k, v, asg):
    """does the assignment satisfy the condition?  None: not understood"""
    try:
        if k[0] == 'seq':
            return text(k[1], asg) == v
        if k[0] == 'sne':
            return text(k[1], asg) not in v
        if k[0] in ('pre', 'starts_with'):
            return text(k[1], asg).startswith(k[2]) == v
        if k[0] == 'ends_with':
            return text(k[1], asg).endswith(k[2]) == v
        if k[0] == 'contains':
            return (k[2] in text(k[1], asg)) == v
        if k[0] == 'isnum':
            t = text(k[1], asg)
            t = t[1:] if t.startswith('+') else t
            return (t.isdigit() and int(t) <= INTMAX.get(k[2], 0)) == v
        if k[0] == 'streq2':
            return (text(k[1], asg) == text(k[2], asg)) == v
    except No:
        pass
    return None


def string_conds(facts):
    return [(k, v) for k, v in facts.items() if k[0] not in ('var', 'nd', 'G') and leaves(k, set())]


def witness(facts, a, b):
    """an assignment of written texts satisfying the facts for which the texts a and b differ; '?' if there is none found"""
    ls = leaves((a, b), set())
    conds = string_conds(facts)
    # conditions about other texts do not matter
    while True:
        rel = [c for c in conds if leaves(c[0], set()) & ls]
        more = set(ls)
        for k, _ in rel:
            leaves(k, more)
        if more == ls:
            break
        ls = more
    ls = sorted(ls, key=repr)
    if len(ls) > 4:
        return '?'
    cand = set(TRY)
    for k, v in rel:
        for x in (k[2:] + ((v,) if isinstance(v, str) else tuple(v) if isinstance(v, frozenset) else ())):
            if isinstance(x, str) and x:
                cand |= {x, x + 'Foo', x + '7'}
    for x in needles((a, b), set()):
        cand |= {x, x + '1', 'x' + x, x + x, 'x%sx%sx' % (x, x)}
    cand = sorted(cand)
    rnd = random.Random(7)
    combos = itertools.product(cand, repeat=len(ls)) if len(cand) ** len(ls) <= 40000 else ([rnd.choice(cand) for _ in ls] for _ in range(20000))
    for c in combos:
        asg = dict(zip(ls, c))
        hs = [holds(k, v, asg) for k, v in rel]
        if None in hs and not any(h is False for h in hs):
            return '?'
        if False in hs:
            continue
        try:
            if text(a, asg) != text(b, asg):
                return asg
        except No:
            return '?'
    return '?'
