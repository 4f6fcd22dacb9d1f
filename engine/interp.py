"""Path-sensitive abstract interpreter (trace-partitioned dataflow) over the exported MIR.

Abstract values are tuples:
  ('i',n) ('b',bool) ('ch',c) ('s',pieces) ('tup',vs) ('adt',ty,variant,vs) ('vec',segs) ('box',v)
  ('ref',root,projs) ('cl',fn,upvars) ('fn',callee) ('sym',path,ty) ('c',cond)/('cn',cond)
  ('discr',path,ty) ('it',...) ('fmt',pieces) ('top',why) ('uninit',)
Sequence segments: ('el',v), ('all',P,ty,mods), ('map',P,mods,lid,done,alts), ('unk',why)
A `map` segment abstracts "one delta per element of P, in order": alts = {(guard facts, delta segments)}.
Loops over a symbolic sequence are solved by a fixpoint at the `next` call: effects of an iteration are
folded into map segments, everything else is joined.
"""
import os, re, sys, time
sys.setrecursionlimit(20000)


STRICT = bool(os.environ.get('VERIF_STRICT'))


class Budget(Exception):
    pass


class St:
    __slots__ = ('mem', 'facts', 'und')

    def __init__(self, mem=None, facts=None, und=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.und = und

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.und)

    def fact(self, k, v):
        s = self.copy()
        s.facts[k] = v
        return s

    def doubt(self, why):
        if why in self.und:
            return self
        s = self.copy()
        s.und = self.und + (why,)
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.und)


UNIT = ('tup', ())
TOP = ('top', 'unknown')


def top(why):
    return ('top', why)


def strip_generics(p):
    """core::slice::<impl [T]>::iter -> core::slice::iter ; Vec::<T, A>::push -> Vec::push"""
    out, depth, i = [], 0, 0
    while i < len(p):
        if p.startswith('::<', i):
            d, j = 0, i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


def starts(path, prefix):
    return path[:len(prefix)] == prefix


def mentions(v, step):
    """does the nested tuple v mention a path step `step`?"""
    if v == step:
        return True
    if isinstance(v, (tuple, frozenset)):
        for x in v:
            if isinstance(x, (tuple, frozenset)) and mentions(x, step):
                return True
    return False


def lit(s):
    return ('s', (('lit', s),) if s else ())


def cat(*ps):
    out = []
    for p in ps:
        for x in p:
            if x[0] == 'lit' and out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + x[1])
            elif x[0] == 'lit' and not x[1]:
                continue
            else:
                out.append(x)
    return tuple(out)


def lit_of(v):
    if v[0] != 's':
        return None
    if not v[1]:
        return ''
    if len(v[1]) == 1 and v[1][0][0] == 'lit':
        return v[1][0][1]
    return None


class Frame:
    __slots__ = ('name', 'body', 'fid', 'heads', 'depth', 'stable')


INTBITS = {'%s%s' % (a, n): (64 if n == 'size' else n) for a in 'iu' for n in (8, 16, 32, 64, 128, 'size')}


def wrap(n, t):
    b = INTBITS.get(t, 128)
    n &= (1 << b) - 1
    return n - (1 << b) if t.startswith('i') and n >> (b - 1) else n


def int_cast(v, t):
    if v[0] == 'i':
        return ('i', wrap(v[1], t))
    if v[0] not in ('sym', 'len', 'num', 'idx') or t not in INTBITS:
        return v
    src = v[2] if v[0] == 'sym' else 'u32' if v[:2] == ('num', 'char') else 'usize'
    a, b = INTBITS.get(src, 0), INTBITS[t]
    if src in ('char', 'bool') or a < b and (not src.startswith('i') or t.startswith('i')) or a == b and src[:1] == t[:1]:
        return v
    if v[0] in ('len', 'idx') and b >= 64:
        return v              # lengths are below 2^63
    return ('num', 'cast', t, v)


SYMTY = {}      # types of the symbolic objects by path


class Interp:
    deadline = None
    nodoubt = False         # paths on which something is not known need not be followed
    def __init__(self, mir, budget=400000, maxdepth=60):
        self.reclimit = 3
        self.mir, self.funcs, self.types = mir, mir['funcs'], mir['types']
        self.symty, self.text_class = SYMTY, None
        self.adts = {a['path']: a for a in mir['adts']}
        self.fids = {}
        self.hooks = []           # (interp, st, callee, args, site) -> outcomes | None
        self.steps, self.budget, self.maxdepth = 0, budget, maxdepth
        self.stack = []
        self.analysed = set()
        self.unmodelled = {}
        self.opaque = None      # f(I, st, callee, path, args, term): outcomes of calls without model
        self.term = None
        self.vislimit = 64
        self._heads = {}
        self.display_opaque = None   # optional predicate(ty) -> bool
        import models
        self.models = models.MODELS
        self.M = models

    # ---------------------------------------------------------------- values
    def ty(self, t):
        return self.types.get(t) or {'k': 'other'}

    def is_string(self, t):
        k = self.ty(t)
        return k['k'] == 'str' or (k['k'] == 'adt' and k['path'] == 'alloc::string::String')

    def is_box(self, t):
        k = self.ty(t)
        return k['k'] == 'adt' and k.get('box')

    def sym(self, path, t):
        k = self.ty(t)
        if self.is_string(t):
            return ('s', (('sp', path),))
        self.symty[path] = t
        if k['k'] == 'adt':
            if k.get('box'):
                return ('box', self.sym(path, k['args'][0]))
            if k['path'] == 'alloc::vec::Vec':
                return ('vec', (('all', path, k['args'][0], ()),))
        if k['k'] == 'slice':
            return ('vec', (('all', path, k['inner'], ()),))
        if k['k'] == 'ref' or k['k'] == 'ptr':
            return ('ref', ('V', self.sym(path, k['inner'])), ())
        if k['k'] == 'tuple':
            return ('tup', tuple(self.sym(path + (('f', 0, i),), a) for i, a in enumerate(k['args'])))
        return ('sym', path, t)

    def variants_of(self, st, v):
        """possible variant indices of a symbolic enum"""
        k = self.ty(v[2])
        return st.facts.get(('var', v[1]), frozenset(range(len(k.get('variants', [])))))

    def field(self, st, v, variant, i):
        """field i of (downcast variant of) a value"""
        t = v[0]
        if t in ('adt',):
            return v[3][i] if i < len(v[3]) else top('field')
        if t == 'tup':
            return v[1][i] if i < len(v[1]) else top('field')
        if t == 'cl':
            return v[2][i] if i < len(v[2]) else top('field')
        if t == 'sym':
            k = self.ty(v[2])
            vs = k.get('variants')
            if not vs:
                return top('field of opaque ' + v[2])
            vi = variant
            if vi is None:
                vi = 0
            try:
                f = vs[vi]['fields'][i]
            except IndexError:
                return top('field')
            return self.sym(v[1] + (('f', vi, i),), f['ty'])
        if t == 'uninit':
            return v
        if t == 'box' or t == 'mu':
            return self.field(st, v[1], variant, i)
        return top('field of ' + t)

    def expand(self, v, variant):
        """symbolic struct / known variant -> adt of symbolic fields"""
        k = self.ty(v[2])
        vs = k.get('variants')
        if not vs:
            return None
        vi = variant if variant is not None else 0
        return ('adt', v[2], vi, tuple(self.sym(v[1] + (('f', vi, i),), f['ty']) for i, f in enumerate(vs[vi]['fields'])))

    # ---------------------------------------------------------------- places
    def getroot(self, st, root):
        if root[0] == 'V':
            return root[1]
        return st.mem.get(root, top('uninitialised'))

    def project(self, st, v, projs):
        for p in projs:
            if p[0] == 'd':
                if v[0] == 'box':
                    v = v[1]
                elif v[0] == 'top':
                    return v
                # a symbolic box is already transparent
            elif p[0] == 'f':
                v = self.field(st, v, p[1], p[2])
            elif p[0] == 'e':
                v = self.elem(st, v, p[1])
            elif p[0] == 'sl':
                v = self.subslice(v, p[1], p[2])
            if v[0] == 'top':
                return v
        return v

    def subslice(self, v, lo, hi):
        if v[0] == 'vec' and all(s[0] == 'el' for s in v[1]):
            n = len(v[1])
            return ('vec', v[1][lo:n if hi is None else hi])
        return top('subslice')

    def elem(self, st, v, idx):
        if v[0] != 'vec':
            return top('index of ' + v[0])
        segs = v[1]
        if idx[0] == 'i':
            n = idx[1]
            for j, s in enumerate(segs):
                if s[0] != 'el':
                    if j == n and s[0] == 'all' and s[3] == ():
                        return self.sym(s[1] + (('n', 0),), s[2])
                    return top('index into symbolic sequence')
                if j == n:
                    return s[1]
            return top('index out of range')
        if idx[0] == 'idx' and len(segs) == 1:
            s = segs[0]
            if s[0] == 'all' and s[1] == idx[1] and s[3] == ():
                return self.sym(s[1] + (('e', idx[2]),), s[2])
            if s[0] == 'map' and s[1] == idx[1] and s[2] == () and s[3] == idx[2] and len(s[5]) == 1:
                g, d = next(iter(s[5]))
                if len(d) == 1 and d[0][0] == 'el':
                    return d[0][1]
        return top('symbolic index')

    def read(self, st, root, projs):
        return self.project(st, self.getroot(st, root), projs)

    def write(self, st, root, projs, val):
        """in place on st (callers own their copy)"""
        if root[0] == 'V':
            return st
        st.mem[root] = self.update(st, st.mem.get(root, ('uninit',)), projs, val)
        return st

    def update(self, st, v, projs, val):
        if not projs:
            return val
        p = projs[0]
        if p[0] == 'd':
            if v[0] == 'box':
                return ('box', self.update(st, v[1], projs[1:], val))
            if v[0] == 'sym':
                return self.update(st, v, projs[1:], val)
            return top('write through ' + v[0])
        if p[0] == 'f':
            if v[0] == 'uninit':
                return ('part', ((p, val),)) if not projs[1:] else val
            if v[0] == 'mu':
                return ('mu', val)
            if v[0] == 'part':
                d = dict(v[1])
                d[p] = self.update(st, d.get(p, ('uninit',)), projs[1:], val)
                return ('part', tuple(sorted(d.items(), key=repr)))
            if v[0] == 'sym':
                v = self.expand(v, p[1]) or top('expand')
            if v[0] == 'adt':
                fs = list(v[3])
                if p[2] >= len(fs):
                    return top('write field')
                fs[p[2]] = self.update(st, fs[p[2]], projs[1:], val)
                return ('adt', v[1], v[2], tuple(fs))
            if v[0] == 'tup':
                fs = list(v[1])
                fs[p[2]] = self.update(st, fs[p[2]], projs[1:], val)
                return ('tup', tuple(fs))
            if v[0] == 'cl':
                fs = list(v[2])
                fs[p[2]] = self.update(st, fs[p[2]], projs[1:], val)
                return ('cl', v[1], tuple(fs))
            return top('write field of ' + v[0])
        if p[0] == 'e' and v[0] == 'vec' and p[1][0] == 'i':
            segs = list(v[1])
            n = p[1][1]
            if n < len(segs) and all(s[0] == 'el' for s in segs[:n + 1]):
                segs[n] = ('el', self.update(st, segs[n][1], projs[1:], val))
                return ('vec', tuple(segs))
        if p[0] == 'last' and v[0] == 'vec' and v[1] and v[1][-1][0] == 'el':
            return ('vec', v[1][:-1] + (('el', self.update(st, v[1][-1][1], projs[1:], val)),))
        return top('write element')

    def resolve(self, st, fr, place):
        """MIR place -> (root, projs), following references"""
        root, projs = ('L', fr.fid, place[0]), ()
        var = None
        pend = place[1]
        i = 0
        # a box dereferenced by the compiler's elaboration reads its inner pointer: (box).0(.0..) is the box
        for e in pend:
            k = e[0]
            if k == 'deref':
                v = self.read(st, root, projs)
                if v[0] == 'ref':
                    root, projs = v[1], v[2]
                elif v[0] == 'box':
                    projs = projs + (('d',),)
                elif v[0] in ('s', 'txt'):
                    # &str is its own value
                    root, projs = ('V', v), ()
                elif v[0] == 'sym':
                    pass
                else:
                    root, projs = ('V', v if v[0] == 'top' else top('deref of ' + v[0])), ()
                var = None
            elif k == 'downcast':
                var = e[1]
            elif k == 'field':
                v = self.read(st, root, projs)
                if v[0] == 'box':
                    # box internals
                    return root, projs
                projs = projs + (('f', var, e[1]),)
                var = None
            elif k == 'index':
                idx = st.mem.get(('L', fr.fid, e[1]), TOP)
                projs = projs + (('e', idx),)
            elif k == 'cindex':
                off, fromend = e[1], e[2]
                if fromend:
                    v = self.read(st, root, projs)
                    if v[0] == 'vec' and all(s[0] == 'el' for s in v[1]):
                        off = len(v[1]) - off
                    else:
                        projs = projs + (('e', top('from end')),)
                        continue
                projs = projs + (('e', ('i', off)),)
            elif k == 'subslice':
                lo, hi, fromend = e[1], e[2], e[3]
                v = self.read(st, root, projs)
                n = len(v[1]) if v[0] == 'vec' else 0
                projs = projs + (('sl', lo, (n - hi) if fromend else hi),)
        if root[0] == 'V' and projs:
            return ('V', self.project(st, root[1], projs)), ()
        return root, projs

    def load(self, st, v):
        """value behind a reference (through any number of references)"""
        while True:
            if v[0] == 'ref':
                v = self.read(st, v[1], v[2])
            else:
                return v

    def deref1(self, st, v):
        if v[0] == 'ref':
            return self.read(st, v[1], v[2])
        return v

    def strip(self, st, v):
        """load through references and boxes"""
        while v[0] in ('ref', 'box'):
            v = self.read(st, v[1], v[2]) if v[0] == 'ref' else v[1]
        return v

    def const(self, c):
        return self.constv(c['v'], c['ty'])

    def constv(self, v, ty):
        k = v[0]
        if k == 'int':
            return ('i', v[1])
        if k == 'bool':
            return ('b', v[1])
        if k == 'char':
            return ('ch', v[1] if isinstance(v[1], str) else chr(v[1]))
        if k == 'str':
            return lit(v[1])
        if k == 'bytes':
            return ('vec', tuple(('el', ('i', x)) for x in v[1]))
        if k == 'adt':
            t = self.ty(v[1])
            fs = tuple(self.constv(x, None) for x in v[3])
            if v[1] == '()' or t['k'] == 'tuple':
                return ('tup', fs)
            return ('adt', v[1], v[2], fs)
        if k == 'array':
            return ('vec', tuple(('el', self.constv(x, None)) for x in v[3]))
        if k == 'ref':
            x = self.constv(v[1], None)
            if x[0] == 's':
                return x
            return ('ref', ('V', x), ())
        if k == 'fn':
            return ('fn', CalleeBox(v[1]))
        if k == 'zst':
            t = self.ty(v[1]) if len(v) > 1 else self.ty(ty)
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return ('cl', t['path'], ())
            if t['k'] == 'adt' and t.get('variants'):
                return ('adt', v[1] if len(v) > 1 else ty, 0, ())
            if t['k'] == 'fndef':
                return top('fn item')
            return UNIT
        if k == 'static':
            x = self.static_value(v[1])
            if x is not None:
                return ('ref', ('V', x), ())
            return ('sym', (('static', v[1]),), ty or '')
        return top('constant')

    def static_value(self, path):
        """what the initialiser of a static that never changes makes (None: not known)"""
        if not hasattr(self, '_statics'):
            self._statics = {s['path']: s for s in self.mir['statics']}
            self._svals = {}
        if path in self._svals:
            return self._svals[path]
        self._svals[path] = None
        s = self._statics.get(path)
        if not s or s['mut'] or s.get('thread_local') or not s.get('init') or not (s['freeze'] or self.ty(s['ty']).get('path') in LAZY):
            return None
        stack, self.stack = self.stack, []
        try:
            outs = self.exec_fn(St(), s['init'], [], 0, ('static', path))
        finally:
            self.stack = stack
        if len(outs) == 1 and outs[0][0] == 'ret' and not outs[0][1].und and not local_refs(outs[0][2]):
            self._svals[path] = outs[0][2]
        return self._svals[path]

    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            p = o[1]
            if not p[1]:
                v = st.mem.get(('L', fr.fid, p[0]), top('uninitialised'))
            else:
                r, pr = self.resolve(st, fr, p)
                v = self.read(st, r, pr)
            return v
        if o[0] == 'const':
            return self.const(o[1])
        return top('operand')

    # ---------------------------------------------------------------- conditions
    def branch(self, st, v):
        """[(state, bool)]"""
        if v[0] == 'b':
            return [(st, v[1])]
        if v[0] == 'i':
            return [(st, v[1] != 0)]
        if v[0] in ('c', 'cn'):
            neg = v[0] == 'cn'
            return [(s, b != neg) for s, b in self.assume(st, v[1])]
        if v[0] == 'sym':
            return self.assume(st, ('is', v[1]))
        s = st.doubt('branch on ' + str(v[1] if v[0] == 'top' else v[0]))
        return [(s, True), (s, False)]

    def impossible(self, cond):
        """no text that can stand at this place of a tree satisfies the condition"""
        k = cond[0]
        if self.text_class and k in ('streq', 'pre', 'starts_with', 'ends_with', 'contains') and len(cond[1]) == 1 and cond[1][0][0] == 'sp' and isinstance(cond[2], str):
            cl = self.text_class(self, cond[1][0][1])
            return cl is not None and not cl(k, cond[2])
        return False

    def assume(self, st, cond):
        f = st.facts.get(cond)
        if f is not None:
            return [(st, f)]
        k = cond[0]
        if self.impossible(cond):
            return [(st, False)]
        if k == 'streq':
            pieces, l = cond[1], cond[2]
            known = st.facts.get(('seq', pieces))
            if known is not None:
                return [(st, known == l)]
            if l in st.facts.get(('sne', pieces), ()):
                return [(st, False)]
            for c, b in st.facts.items():
                if c[0] == 'pre' and c[1] == pieces and l.startswith(c[2]) != b:
                    return [(st, False)]
            if any(p[0] == 'lit' and p[1] not in l for p in pieces):
                return [(st, False)]
            if pieces and pieces[0][0] == 'lit' and not l.startswith(pieces[0][1]):
                return [(st, False)]
            if pieces and pieces[-1][0] == 'lit' and not l.endswith(pieces[-1][1]):
                return [(st, False)]
            t = st.fact(('seq', pieces), l)
            e = st.fact(('sne', pieces), st.facts.get(('sne', pieces), frozenset()) | {l})
            return [(t, True), (e, False)]
        if k == 'pre':
            known = st.facts.get(('seq', cond[1]))
            if known is not None:
                return [(st, known.startswith(cond[2]))]
        if k == 'empty':
            pass
        return [(st.fact(cond, True), True), (st.fact(cond, False), False)]

    def restrict(self, st, path, vs):
        s = st.copy()
        s.facts[('var', path)] = frozenset(vs)
        return s

    # ---------------------------------------------------------------- functions
    def fid(self, parent, bb, name):
        k = (parent, bb, name)
        f = self.fids.get(k)
        if f is None:
            f = self.fids[k] = len(self.fids) + 1
        return f

    def exec_fn(self, st, name, args, parent, bb):
        f = self.funcs.get(name)
        if f is None or not f.get('body'):
            return [('ret', st.doubt('no body: ' + name), top('result of ' + name))]
        if len(self.stack) >= self.maxdepth or self.stack.count(name) >= self.reclimit:
            return [('ret', st.doubt('recursion: ' + name), top('result of ' + name))]
        body = f['body']
        fr = Frame()
        fr.name, fr.body, fr.fid = name, body, self.fid(parent, bb, name)
        fr.heads = self.heads(name, body)
        fr.stable = {}
        st = st.copy()
        if body.get('spread') and len(args) == 2 and args[1][0] == 'tup' and body['argc'] != 2:
            args = [args[0]] + list(args[1][1])
        for i, a in enumerate(args):
            st.mem[('L', fr.fid, i + 1)] = a
        self.stack.append(name)
        self.analysed.add(name)
        try:
            outs = self.run(st, fr, 0)
        except RecursionError:
            if len(self.stack) > 1 or STRICT:
                raise
            raise Budget('the analysis of %s nests too deeply' % name)
        except (IndexError, KeyError, TypeError, ValueError, AttributeError, AssertionError) as e:
            # a value the models do not expect: this call is not decided
            if STRICT:
                raise
            self.unmodelled['internal'] = self.unmodelled.get('internal', 0) + 1
            outs = [('undet', st, 'internal %s in %s: %s' % (type(e).__name__, name, e))]
        finally:
            self.stack.pop()
        res, seen = [], set()
        for o in outs:
            if o[0] == 'ret':
                s = o[1].copy()
                self.drop_frame(s, fr.fid)
                o = ('ret', s, o[2])
                if len(outs) > 1:
                    k = (s.key(), o[2])
                    if k in seen:
                        continue
                    seen.add(k)
            res.append(o)
        return res

    def drop_frame(self, s, fid):
        for r in [r for r in s.mem if r[0] in ('L', 'T') and r[1] == fid]:
            del s.mem[r]

    def heads(self, name, body):
        h = self._heads.get(name)
        if h is None:
            h = set()
            color = {}
            bl = body['blocks']
            stack = [(0, iter(self.succs(bl[0])))] if bl and bl[0] else []
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if bl[s] is None:
                        continue
                    c = color.get(s)
                    if c == 1:
                        h.add(s)
                    elif c is None:
                        color[s] = 1
                        stack.append((s, iter(self.succs(bl[s]))))
                        break
                else:
                    color[b] = 2
                    stack.pop()
            self._heads[name] = h
        return h

    @staticmethod
    def succs(bb):
        t = bb['t']
        k = t[0]
        if k in ('goto', 'drop'):
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        return []

    def run(self, st, fr, bb, visits=None):
        """explores from bb; returns terminal outcomes of this function"""
        outs = []
        work = [(st, bb, visits or {})]
        while work:
            st, bb, vis = work.pop()
            self.steps += 1
            if self.steps > self.budget or self.deadline and not self.steps & 15 and time.time() > self.deadline:
                raise Budget('analysis budget exceeded in ' + fr.name)
            if 'within' in vis and bb not in vis['within']:
                continue
            if self.nodoubt and st.und:
                outs.append(('undet', st, st.und[0]))
                continue
            if bb in fr.heads:
                n = vis.get(bb, 0) + 1
                if n > self.vislimit:
                    outs.append(('undet', st, 'loop in %s not resolved' % fr.name))
                    continue
                vis = dict(vis)
                vis[bb] = n
                r = self.loop_head(st, fr, bb, vis)
                if isinstance(r, St):
                    st = r
                elif r is not None:
                    outs += r
                    continue
            blk = fr.body['blocks'][bb]
            if blk is None:
                outs.append(('panic', st, 'unwind'))
                continue
            st = st.copy()
            for s in blk['st']:
                self.stmt(st, fr, s)
            t = blk['t']
            k = t[0]
            if k == 'goto':
                work.append((st, t[1], vis))
            elif k == 'drop':
                r = self.do_drop(st, fr, bb, t)
                if r is None:
                    work.append((st, t[1], vis))
                else:
                    for o in r:
                        if o[0] == 'ret':
                            work.append((o[1], t[1], vis))
                        else:
                            outs.append(o)
            elif k == 'switch':
                for s2, b2 in self.switch(st, fr, t):
                    if b2 is not None:
                        work.append((s2, b2, vis))
            elif k == 'return':
                outs.append(('ret', st, st.mem.get(('L', fr.fid, 0), UNIT)))
            elif k == 'unreachable':
                pass
            elif k == 'assert':
                v = self.operand(st, fr, t[1])
                for s2, b in self.branch(st, v):
                    if b == t[2]:
                        work.append((s2, t[5], vis))
                    else:
                        outs.append(('panic', s2, ('assert', t[3], t[6])))
            elif k == 'call':
                self.do_call(st, fr, bb, t, vis, work, outs)
            else:
                outs.append(('undet', st, 'terminator ' + k))
        return outs

    def loop_head(self, st, fr, bb, vis):
        return None

    def do_drop(self, st, fr, bb, t):
        ty = t[3]
        k = self.ty(ty)
        if k['k'] == 'adt' and k.get('local'):
            n = '<%s as core::ops::drop::Drop>::drop' % ty
            if n in self.funcs:
                r, p = self.resolve(st, fr, t[2])
                return self.exec_fn(st, n, [('ref', r, p)], fr.fid, bb)
            a = self.adts.get(k['path'])
            if a and any('drop::Drop' in str(i[0]) for i in a['impls']):
                return [('ret', st.doubt('drop of ' + ty), UNIT)]
        return None

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        arms, other = t[2], t[3]
        if v[0] == 'i':
            for val, b in arms:
                if val == v[1]:
                    return [(st, b)]
            return [(st, other)]
        if v[0] == 'ch':
            for val, b in arms:
                if val == ord(v[1]):
                    return [(st, b)]
            return [(st, other)]
        if v[0] == 'b' or v[0] in ('c', 'cn') or t[4] == 'bool':
            res = []
            for s2, b in self.branch(st, v):
                tgt = other
                for val, bb in arms:
                    if val == int(b):
                        tgt = bb
                res.append((s2, tgt))
            return res
        if v[0] == 'discr':
            path, ty = v[1], v[2]
            vs = self.ty(ty)['variants']
            poss = st.facts.get(('var', path), frozenset(range(len(vs))))
            res, left = [], set(poss)
            for val, b in arms:
                for i in sorted(poss):
                    if vs[i]['discr'] == val:
                        left.discard(i)
                        res.append((self.restrict(st, path, [i]), b))
            if left and other is not None:
                res.append((self.restrict(st, path, left), other))
            return res
        if v[0] == 'sym':
            key = ('val', v[1])
            known = st.facts.get(key)
            res = []
            exc = st.facts.get(('nval', v[1]), frozenset())
            for val, b in arms:
                if known is not None:
                    if known == val:
                        return [(st, b)]
                    continue
                if val in exc:
                    continue
                res.append((st.fact(key, val), b))
            if known is not None:
                return [(st, other)]
            if other is not None:
                res.append((st.fact(('nval', v[1]), exc | {x[0] for x in arms}), other))
            return res
        s = st.doubt('switch on ' + (str(v[1]) if v[0] == 'top' else v[0]))
        return [(s, b) for _, b in arms] + ([(s, other)] if other is not None else [])

    # ---------------------------------------------------------------- statements
    def stmt(self, st, fr, s):
        if s[0] == 'assign':
            v = self.rvalue(st, fr, s[2])
            if not s[1][1]:
                st.mem[('L', fr.fid, s[1][0])] = v
            else:
                self.assign(st, fr, s[1], v)
        elif s[0] == 'dead':
            st.mem.pop(('L', fr.fid, s[1]), None)
        elif s[0] == 'setdiscr':
            r, p = self.resolve(st, fr, s[1])
            v = self.read(st, r, p)
            if v[0] == 'adt':
                self.write(st, r, p, ('adt', v[1], s[2], v[3]))
            elif v[0] in ('part', 'uninit'):
                fs = [x for k, x in sorted(v[1], key=lambda kv: kv[0][2])] if v[0] == 'part' else []
                self.write(st, r, p, ('adt', self.place_ty(fr, s[1]) or '?', s[2], tuple(fs)))

    def place_ty(self, fr, place):
        if not place[1]:
            return fr.body['locals'][place[0]]
        e = place[1][-1]
        return e[2] if e[0] == 'field' else None

    def assign(self, st, fr, place, v):
        r, p = self.resolve(st, fr, place)
        if r[0] == 'V':
            return
        self.write(st, r, p, v)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'rawptr'):
            root, projs = self.resolve(st, fr, r[1])
            v = self.read(st, root, projs)
            if v[0] in ('s', 'txt') and (r[1][1] and r[1][1][-1][0] == 'deref') and self.deref_is_str(fr, r[1]):
                return v          # &*(&str)
            return ('ref', root, projs)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            kind = r[1]
            if kind == 'BoxDerefTransmute':
                # operand is the raw pointer inside a box; resolve() stops at the box itself
                root, projs = self.resolve(st, fr, r[2][1])
                v = self.read(st, root, projs)
                if v[0] == 'box':
                    if root[0] == 'V':
                        return ('ref', ('V', v[1]), ())
                    return ('ref', root, projs + (('d',),))
                if v[0] == 'sym':
                    return ('ref', root, projs)
                return v if v[0] in ('ref',) else top('box pointer')
            if kind == 'IntToInt':
                if v[0] == 'b':
                    return ('i', int(v[1]))
                if v[0] == 'ch':
                    return ('i', ord(v[1]) & ((1 << INTBITS.get(r[3], 128)) - 1))
                return int_cast(v, r[3])
            if kind == 'IntToChar' or (kind == 'Transmute' and r[3] == 'char'):
                return ('ch', chr(v[1])) if v[0] == 'i' else v
            return v
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                return self.neg(v)
            if r[1] == 'Neg' and v[0] == 'i':
                return ('i', -v[1])
            if r[1] == 'PtrMetadata':
                return self.length(st, self.load(st, v))
            return top('unary ' + r[1])
        if k == 'discr':
            root, projs = self.resolve(st, fr, r[1])
            v = self.read(st, root, projs)
            return self.discr(st, v)
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[4])
            if r[1] == 'tuple':
                return ('tup', ops)
            if r[1] == 'array':
                return ('vec', tuple(('el', o) for o in ops))
            if r[1] == 'adt':
                return ('adt', r[2], r[3], ops)
            if r[1] == 'closure':
                return ('cl', r[2], ops)
            return top('aggregate')
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if isinstance(r[2], int) and r[2] <= 64:
                return ('vec', tuple(('el', v) for _ in range(r[2])))
            return ('vec', (('unk', 'repeat'),))
        return top('rvalue ' + k)

    def deref_is_str(self, fr, place):
        """is the last deref of a &str (rather than of a &String)?"""
        t = fr.body['locals'][place[0]]
        for e in place[1]:
            if e[0] == 'field':
                t = e[2]
            elif e[0] == 'deref':
                k = self.ty(t)
                t = k.get('inner') or (k.get('args') or [None])[0]
            elif e[0] == 'downcast':
                pass
            else:
                t = None
            if t is None:
                return False
        return self.ty(t)['k'] == 'str'

    def discr(self, st, v):
        if v[0] == 'adt':
            k = self.ty(v[1])
            try:
                return ('i', k['variants'][v[2]]['discr'])
            except (KeyError, IndexError):
                return ('i', v[2])
        if v[0] == 'sym':
            k = self.ty(v[2])
            if k.get('enum'):
                poss = self.variants_of(st, v)
                if len(poss) == 1:
                    return ('i', k['variants'][next(iter(poss))]['discr'])
                return ('discr', v[1], v[2])
            return ('i', 0)
        if v[0] == 'box':
            return self.discr(st, v[1])
        return top('discriminant of ' + (str(v[1]) if v[0] == 'top' else v[0]))

    def neg(self, v):
        if v[0] == 'b':
            return ('b', not v[1])
        if v[0] == 'c':
            return ('cn', v[1])
        if v[0] == 'cn':
            return ('c', v[1])
        if v[0] == 'sym':
            return ('cn', ('is', v[1]))
        return v if v[0] == 'top' else top('not')

    def binop(self, st, op, a, b):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        ov = 'WithOverflow' in op
        r = self.arith(st, base, a, b)
        if ov:
            flag = ('b', False)
            if r[0] == 'i' and r[1] < 0:
                flag = ('b', True)
            elif r[0] not in ('i', 'lin'):
                flag = ('b', False)
            return ('tup', (r, flag))
        return r

    def arith(self, st, op, a, b):
        x = a[1] if a[0] == 'i' else ord(a[1]) if a[0] == 'ch' else int(a[1]) if a[0] == 'b' else None
        y = b[1] if b[0] == 'i' else ord(b[1]) if b[0] == 'ch' else int(b[1]) if b[0] == 'b' else None
        if x is not None and y is not None:
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return ('b', {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
            if a[0] == 'b':
                if op in ('BitAnd', 'BitOr', 'BitXor'):
                    return ('b', bool({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op]))
            if op in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
                return ('i', {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y,
                              'Shl': x << y if 0 <= y < 64 else 0, 'Shr': x >> y if y >= 0 else 0}[op])
            if op in ('Div', 'Rem') and y:
                return ('i', x // y if op == 'Div' else x % y)
            if op == 'Cmp':
                return ('adt', 'core::cmp::Ordering', 0 if x < y else 1 if x == y else 2, ())
        if op in ('BitAnd', 'BitOr'):
            for p, q in ((a, b), (b, a)):
                if p[0] == 'b':
                    if op == 'BitAnd':
                        return q if p[1] else p
                    return p if p[1] else q
        return self.sym_arith(st, op, a, b)

    def sym_arith(self, st, op, a, b):
        if op in ('Eq', 'Ne'):
            if a == b and a[0] != 'top':
                return ('b', op == 'Eq')
            # len(P) == 0
            for p, q in ((a, b), (b, a)):
                if p[0] == 'len' and q == ('i', 0):
                    c = self.seq_empty(st, ('vec', p[1]))
                    return c if op == 'Eq' else self.neg(c)
                if p[0] in ('sym', 'discr') and q[0] in ('i', 'ch'):
                    val = q[1] if q[0] == 'i' else ord(q[1])
                    c = ('c', ('eqi', p[1], val))
                    if p[0] == 'discr':
                        vs = self.ty(p[2])['variants']
                        poss = st.facts.get(('var', p[1]), frozenset(range(len(vs))))
                        m = [i for i in poss if vs[i]['discr'] == val]
                        if not m:
                            c = ('b', False)
                        elif len(poss) == 1:
                            c = ('b', True)
                        else:
                            c = ('c', ('isvar', p[1], p[2], m[0]))
                    return c if op == 'Eq' else self.neg(c)
        if op in ('Gt', 'Ne') and a[0] == 'len' and b == ('i', 0):
            return self.neg(self.seq_empty(st, ('vec', a[1])))
        if op == 'Ge' and a[0] == 'len' and b == ('i', 1):
            return self.neg(self.seq_empty(st, ('vec', a[1])))
        if op == 'Lt' and b[0] == 'len' and a == ('i', 0):
            return self.neg(self.seq_empty(st, ('vec', b[1])))
        if op == 'Lt' and a[0] == 'len' and b == ('i', 1):
            return self.seq_empty(st, ('vec', a[1]))
        if a[0] in ('len', 'sym', 'num') and b[0] in ('i', 'len', 'sym', 'num') or b[0] in ('len', 'sym', 'num') and a[0] == 'i':
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return ('c', ('cmp', op, a, b))
            return ('num', op, a, b)
        return top('arithmetic %s on %s,%s' % (op, a[0], b[0]))

    # ---------------------------------------------------------------- sequences
    def length(self, st, v):
        if v[0] == 'vec':
            if all(s[0] == 'el' for s in v[1]):
                return ('i', len(v[1]))
            if any(s[0] == 'unk' for s in v[1]):
                return top('length')
            return ('len', v[1])
        if v[0] == 's':
            l = lit_of(v)
            if l is not None:
                return ('i', len(l.encode()))
            return ('num', 'strlen', v)
        return top('length of ' + v[0])

    def seq_empty(self, st, v):
        if v[0] == 's':
            l = lit_of(v)
            if l is not None:
                return ('b', l == '')
            return ('c', ('streq', v[1], ''))
        if v[0] != 'vec':
            return top('emptiness of ' + v[0])
        if not v[1]:
            return ('b', True)
        for s in v[1]:
            if s[0] == 'el':
                return ('b', False)
        for s in v[1]:
            if s[0] == 'unk':
                return top('emptiness')
        if len(v[1]) == 1:
            s = v[1][0]
            if s[0] == 'all' and not any(m[0] != 'rev' for m in s[3]):
                return ('c', ('empty', s[1]))
            if s[0] == 'map' and s[4] == 'full' and all(d and d[0][0] == 'el' for g, d in s[5]):
                return ('c', ('empty', s[1]))
        return ('c', ('emptyseq', v[1]))

    def eq(self, st, a, b, depth=0):
        """structural equality: [(state, bool)]"""
        a, b = self.strip(st, a), self.strip(st, b)
        if a[0] == 'top' or b[0] == 'top' or depth > 12:
            s = st.doubt('comparison with unknown')
            return [(s, True), (s, False)]
        if a == b and a[0] != 'it':
            return [(st, True)]
        if a[0] == 's' and b[0] == 's':
            la, lb = lit_of(a), lit_of(b)
            if la is not None and lb is not None:
                return [(st, la == lb)]
            if lb is not None:
                return self.assume(st, ('streq', a[1], lb))
            if la is not None:
                return self.assume(st, ('streq', b[1], la))
            return self.assume(st, ('streq2',) + tuple(sorted((a[1], b[1]), key=repr)))
        if a[0] == 'sym' and b[0] == 'sym':
            return self.assume(st, ('eq2',) + tuple(sorted((a, b), key=repr)))
        if a[0] == 'sym' and b[0] in ('adt', 'tup', 'i', 'b', 'ch'):
            a, b = b, a
        if b[0] == 'sym':
            if a[0] in ('i', 'ch'):
                return self.assume(st, ('eqi', b[1], a[1] if a[0] == 'i' else ord(a[1])))
            if a[0] == 'b':
                return [(s, x == a[1]) for s, x in self.assume(st, ('is', b[1]))]
            if a[0] == 'adt':
                poss = self.variants_of(st, b)
                res = []
                others = frozenset(i for i in poss if i != a[2])
                if others:
                    res.append((self.restrict(st, b[1], others), False))
                if a[2] in poss:
                    s = self.restrict(st, b[1], [a[2]]) if len(poss) > 1 else st
                    e = self.expand(b, a[2])
                    res += self.eqs(s, a[3], e[3], depth) if e else [(st.doubt('eq'), True), (st.doubt('eq'), False)]
                return res
        if a[0] == 'adt' and b[0] == 'adt':
            if a[2] != b[2]:
                return [(st, False)]
            return self.eqs(st, a[3], b[3], depth)
        if a[0] == 'tup' and b[0] == 'tup':
            return self.eqs(st, a[1], b[1], depth)
        if a[0] == 'vec' and b[0] == 'vec':
            if all(s[0] == 'el' for s in a[1] + b[1]):
                if len(a[1]) != len(b[1]):
                    return [(st, False)]
                return self.eqs(st, [s[1] for s in a[1]], [s[1] for s in b[1]], depth)
            for p, q in ((a, b), (b, a)):
                if not q[1]:
                    return self.branch(st, self.seq_empty(st, p))
        if a[0] == b[0] and a[0] in ('i', 'b', 'ch'):
            return [(st, a[1] == b[1])]
        if a[0] in ('c', 'cn') or b[0] in ('c', 'cn'):
            res = []
            for s, x in self.branch(st, a):
                for s2, y in self.branch(s, b):
                    res.append((s2, x == y))
            return res
        s = st.doubt('comparison')
        return [(s, True), (s, False)]

    def eqs(self, st, xs, ys, depth):
        cur = [(st, True)]
        for x, y in zip(xs, ys):
            nxt = []
            for s, b in cur:
                if not b:
                    nxt.append((s, b))
                else:
                    nxt += self.eq(s, x, y, depth + 1)
            cur = nxt
        return cur

    # ---------------------------------------------------------------- iteration
    def items(self, v, mode='own', place=None):
        """iterator over a sequence value"""
        if v[0] == 'vec':
            return ('it', 'list', v[1], mode)
        return ('it', 'unk', v[1] if v[0] == 'top' else v[0])

    def pull(self, st, it, k):
        """k(state, iterator', item|None) -> outcomes"""
        kind = it[1]
        if kind == 'list':
            segs, mode = it[2], it[3]
            if not segs:
                return k(st, it, None)
            s = segs[0]
            if s[0] == 'el':
                return k(st, ('it', 'list', segs[1:], mode), self.wrap(s[1], mode))
            if s[0] == 'act':
                if s[3]:
                    return k(st, ('it', 'list', (('act', s[1], s[2], s[3][1:]),) + segs[1:], mode), self.wrap(s[3][0][1], mode))
                return [('back', st, s[2])]
            if s[0] in ('all', 'map'):
                if s[0] == 'all' and st.facts.get(('empty', s[1])) is True:
                    return self.pull(st, ('it', 'list', segs[1:], mode), k)
                return self.loop(st, it, k)
            s2 = st.doubt('unknown sequence: ' + str(s[1]))
            return k(s2, ('it', 'list', segs[1:], mode), None) + k(s2, it, top('element'))
        if kind == 'map':
            def km(s, inner, item):
                if item is None:
                    return k(s, ('it', 'map', inner, it[3]), None)
                return self.bind(self.invoke(s, it[3], [item], 'map'), lambda s2, v, f: k(s2, ('it', 'map', inner, f), v))
            return self.pull(st, it[2], km)
        if kind == 'filter':
            def kf(s, inner, item):
                nit = ('it', 'filter', inner, it[3])
                if item is None:
                    return k(s, nit, None)
                def aft(s2, v, f):
                    outs = []
                    for s3, b in self.branch(s2, v):
                        n2 = ('it', 'filter', inner, f)
                        outs += k(s3, n2, item) if b else self.pull(s3, n2, k)
                    return outs
                return self.bind(self.invoke(s, it[3], [self.tmpref(s, item)], 'filter'), aft)
            return self.pull(st, it[2], kf)
        if kind == 'filter_map':
            def kfm(s, inner, item):
                if item is None:
                    return k(s, ('it', 'filter_map', inner, it[3]), None)
                def aft(s2, v, f):
                    outs = []
                    for s3, some, x in self.opt_cases(s2, v):
                        n2 = ('it', 'filter_map', inner, f)
                        outs += k(s3, n2, x) if some else self.pull(s3, n2, k)
                    return outs
                return self.bind(self.invoke(s, it[3], [item], 'filter_map'), aft)
            return self.pull(st, it[2], kfm)
        if kind == 'flat':
            # flatten / flat_map: it = ('it','flat', inner, f|None, current|None)
            def pump(s, cur, inner, f):
                if cur is None:
                    def ki(s2, inner2, item):
                        if item is None:
                            return k(s2, ('it', 'flat', inner2, f, None), None)
                        if f is None:
                            return pump(s2, self.to_iter(s2, item), inner2, f)
                        return self.bind(self.invoke(s2, f, [item], 'flat_map'), lambda s3, v, f2: pump(s3, self.to_iter(s3, v), inner2, f2))
                    return self.pull(s, inner, ki)

                def kc(s2, cur2, item):
                    if item is None:
                        return pump(s2, None, inner, f)
                    return k(s2, ('it', 'flat', inner, f, cur2), item)
                return self.pull(s, cur, kc)
            return pump(st, it[4], it[2], it[3])
        if kind == 'inspect':
            def kin(s, inner, item):
                if item is None:
                    return k(s, ('it', 'inspect', inner, it[3]), None)
                return self.bind(self.invoke(s, it[3], [self.tmpref(s, item)], 'inspect'), lambda s2, v, f: k(s2, ('it', 'inspect', inner, f), item))
            return self.pull(st, it[2], kin)
        if kind == 'deref':
            return self.pull(st, it[2], lambda s, inner, item: k(s, ('it', 'deref', inner), None if item is None else self.deref1(s, item)))
        if kind == 'enum':
            def ke(s, inner, item):
                n = it[3]
                if item is None:
                    return k(s, ('it', 'enum', inner, n), None)
                a = self.active(inner)
                if a is not None:
                    idx = ('idx', a[1][1], a[2]) if a[1][0] == 'all' and a[1][3] == () and n == 0 else top('enumerate')
                    return k(s, ('it', 'enum', inner, n), ('tup', (idx, item)))
                return k(s, ('it', 'enum', inner, n + 1), ('tup', (('i', n), item)))
            return self.pull(st, it[2], ke)
        if kind == 'chain':
            def kch(s, a, item):
                if item is None:
                    return self.pull(s, it[3], k)
                return k(s, ('it', 'chain', a, it[3]), item)
            return self.pull(st, it[2], kch)
        if kind == 'zip':
            def kz(s, a, item):
                if item is None:
                    return k(s, ('it', 'zip', a, it[3]), None)
                def kz2(s2, b, item2):
                    if item2 is None:
                        return k(s2, ('it', 'zip', a, b), None)
                    return k(s2, ('it', 'zip', a, b), ('tup', (item, item2)))
                return self.pull(s, it[3], kz2)
            return self.pull(st, it[2], kz)
        if kind == 'take_while':
            def kt(s, inner, item):
                if item is None or it[4]:
                    return k(s, ('it', 'take_while', inner, it[3], it[4]), None)
                def aft(s2, v, f):
                    outs = []
                    for s3, b in self.branch(s2, v):
                        outs += k(s3, ('it', 'take_while', inner, f, not b), item if b else None)
                    return outs
                return self.bind(self.invoke(s, it[3], [self.tmpref(s, item)], 'take_while'), aft)
            return self.pull(st, it[2], kt)
        if kind == 'skip_while':
            def sw(s, inner, item):
                if item is None or it[4]:
                    return k(s, it[:2] + (inner,) + it[3:], item)

                def aft(s2, v, f):
                    out = []
                    for s3, b in self.branch(s2, v):
                        out += self.pull(s3, ('it', 'skip_while', inner, f, False), k) if b else k(s3, ('it', 'skip_while', inner, f, True), item)
                    return out
                return self.bind(self.invoke(s, it[3], [self.tmpref(s, item)], 'skip_while'), aft)
            return self.pull(st, it[2], sw)
        if kind == 'map_while':
            def mw(s, inner, item):
                if item is None or it[4]:
                    return k(s, it[:2] + (inner,) + it[3:], None)

                def aft(s2, v, f):
                    out = []
                    for s3, some, x in self.opt_cases(s2, v):
                        out += k(s3, ('it', 'map_while', inner, f, not some), x if some else None)
                    return out
                return self.bind(self.invoke(s, it[3], [item], 'map_while'), aft)
            return self.pull(st, it[2], mw)
        if kind == 'peek':
            # peekable: it = ('it','peek', inner, peeked) peeked = () | (item|None,)
            if it[3]:
                return k(st, ('it', 'peek', it[2], ()), it[3][0])
            return self.pull(st, it[2], lambda s, inner, item: k(s, ('it', 'peek', inner, ()), item))
        s2 = st.doubt('unknown iterator: ' + str(it[2] if len(it) > 2 else ''))
        n = it[3] if kind == 'unk' and len(it) > 3 else 0
        if n >= 2:
            return k(s2, it, None)
        it = ('it', 'unk', it[2] if len(it) > 2 else '', n + 1)
        return k(s2, it, None) + k(s2, it, top('element'))

    def tmpref(self, st, v):
        return ('ref', ('V', v), ())

    def active(self, it):
        if it[1] == 'list':
            return it[2][0] if it[2] and it[2][0][0] == 'act' else None
        if it[1] in ('map', 'deref', 'inspect', 'peek'):
            return self.active(it[2])
        return None

    def to_iter(self, st, v):
        if v[0] == 'it':
            return v
        if v[0] == 'ref':
            x = self.load(st, v)
            return self.items(x, 'ref') if x[0] == 'vec' else self.to_iter(st, x)
        if v[0] == 'adt' and self.ty(v[1]).get('path') == 'core::option::Option':
            return ('it', 'list', tuple(('el', x) for x in v[3]), 'own')
        if v[0] == 'vec':
            return self.items(v, 'own')
        return ('it', 'unk', 'iterator of ' + v[0])

    def wrap(self, v, mode):
        if mode == 'ref':
            if v[0] == 's':
                return ('ref', ('V', v), ())
            return ('ref', ('V', v), ())
        return v

    def bind(self, outs, k):
        res = []
        for o in outs:
            if o[0] == 'ret':
                res += k(o[1], *o[2])
            else:
                res.append(o)
        return res

    def opt_cases(self, st, v):
        """[(state, is_some, payload)] of an Option value"""
        v = self.strip(st, v)
        if v[0] == 'adt':
            return [(st, v[2] == 1, v[3][0] if v[3] else None)]
        if v[0] == 'sym':
            res = []
            poss = self.variants_of(st, v)
            for i in sorted(poss):
                s = self.restrict(st, v[1], [i]) if len(poss) > 1 else st
                res.append((s, i == 1, self.field(s, v, 1, 0) if i == 1 else None))
            return res
        s = st.doubt('unknown option')
        return [(s, False, None), (s, True, top('payload'))]

    def res_cases(self, st, v):
        """[(state, is_ok, payload)] of a Result"""
        v = self.strip(st, v)
        if v[0] == 'adt':
            return [(st, v[2] == 0, v[3][0] if v[3] else UNIT)]
        if v[0] == 'sym':
            res = []
            poss = self.variants_of(st, v)
            for i in sorted(poss):
                s = self.restrict(st, v[1], [i]) if len(poss) > 1 else st
                res.append((s, i == 0, self.field(s, v, i, 0)))
            return res
        s = st.doubt('unknown result')
        return [(s, True, top('payload')), (s, False, top('error'))]

    def expand_seg(self, st, seg, lid):
        """element alternatives of a symbolic segment: [(state, items segs)]"""
        if seg[0] == 'all':
            s = st.copy()
            s.facts[('empty', seg[1])] = False
            return [(s, (('el', self.sym(seg[1] + (('e', lid),), seg[2])),))]
        res = []
        for g, d in sorted(seg[5], key=repr):
            s = st.copy()
            s.facts[('empty', seg[1])] = False
            ok = True
            g2, d2 = rename(g, ('e', seg[3]), ('e', lid), seg[1]), rename(d, ('e', seg[3]), ('e', lid), seg[1])
            for c, b in g2:
                if c[0] == 'var' and c in s.facts:
                    b = s.facts[c] & b
                    if not b:
                        ok = False
                        break
                elif c in s.facts and s.facts[c] != b and c[0] not in ('sne', 'nval'):
                    ok = False
                    break
                s.facts[c] = b
            if not ok:
                continue
            if any(x[0] != 'el' for x in d2):
                s = s.doubt('nested sequence segment')
                d2 = tuple(x if x[0] == 'el' else ('el', top('segment')) for x in d2)
            res.append((s, d2))
        return res

    def loop(self, st, it, k):
        """all iterations over a symbolic segment.  States are partitioned by the discrete values that the loop
        changes (flags, enum states); within a partition a fixpoint is taken"""
        return self.loop_part(st, it, k, it[2][0], 0, [])

    def loop_part(self, entry, it, k, seg, depth, keys):
        rest, mode = it[2][1:], it[3]
        P, mods = seg[1], (seg[3] if seg[0] == 'all' else seg[2])
        lid = 0
        while any(mentions(c, ('e', lid)) and mentions_path(c, P) for c in entry.facts) or any(
                r[0] != 'V' and (mentions_act(v, P, lid) or (depth and mentions(v, ('e', lid)))) for r, v in entry.mem.items()):
            lid += 1
            if lid > 6:
                break
        H = entry
        others, backs, switch = [], [], []
        for rnd in range(10):
            outs = []
            for s, items in self.expand_seg(H, seg, lid):
                if not items:
                    outs.append(('back', s, (P, lid)))
                else:
                    outs += k(s, ('it', 'list', (('act', seg, (P, lid), items[1:]),) + rest, mode), self.wrap(items[0][1], mode))
            backs = [o for o in outs if o[0] == 'back' and o[2] == (P, lid)]
            others = [o for o in outs if not (o[0] == 'back' and o[2] == (P, lid))]
            switch = []
            if backs and depth < 3 and seg[0] == 'all':
                same = []
                for o in backs:
                    d = discrete_diff(H, o[1])
                    if d and d not in keys:
                        switch.append((o[1], d))
                    else:
                        same.append(o)
                if len(switch) > 6:
                    switch = []
                else:
                    backs = same
            if not backs:
                break
            H2 = self.fold(entry, H, [b[1] for b in backs], P, mods, lid)
            if H2.mem == H.mem and H2.facts == H.facts and H2.und == H.und:
                break
            H = H2
        else:
            H = H.doubt('loop did not stabilise')
        done = H.copy()
        tag = ('map', P, mods, lid, 'part')
        for r, v in list(done.mem.items()):
            if r[0] != 'V':
                nv = finish(v, tag)
                if nv is not v:
                    done.mem[r] = nv
        if not backs and not switch and seg[0] == 'all' and not depth:
            done.facts[('empty', P)] = True
        res = others
        if not backs and switch and not depth:
            # the first iteration always leaves this partition: reaching the end here means no elements
            done.facts[('empty', P)] = True
        res = res + self.pull(done, ('it', 'list', rest, mode), k)
        for s, d in switch:
            m2 = mods + (('rest',),)
            if not backs and mods == ():
                s = rename_state(s, ('e', lid), ('n', 0), P)
                m2 = (('skip', 1),)
            seg2 = ('all', P, seg[2], m2)
            res = res + self.loop_part(s, ('it', 'list', (seg2,) + rest, mode), k, seg2, depth + 1, keys + [d])
        return res

    def fold(self, entry, H, backs, P, mods, lid):
        e = ('e', lid)
        n = St({}, {}, H.und)
        for b in backs:
            for u in b.und:
                if u not in n.und:
                    n.und += (u,)
        guards = []
        for b in backs:
            guards.append(frozenset((c, v) for c, v in b.facts.items()
                                    if H.facts.get(c) != v and mentions_path_e(c, P, e)))
        for c, v in H.facts.items():
            if all(b.facts.get(c) == v for b in backs) and not mentions_path_e(c, P, e):
                n.facts[c] = v
        for r, hv in H.mem.items():
            vs = []
            for b in backs:
                if r not in b.mem:
                    vs = None
                    break
                vs.append(b.mem[r])
            if vs is None:
                continue
            n.mem[r] = self.joinv(entry.mem.get(r), hv, vs, guards, P, mods, lid)
        return n

    def joinv(self, ev, hv, vs, guards, P, mods, lid):
        if all(v == hv for v in vs):
            return hv
        if hv[0] == 'vec' and all(v[0] == 'vec' for v in vs):
            base = ev[1] if ev is not None and ev[0] == 'vec' else None
            if base is not None and hv[1][:len(base)] == base:
                hs = hv[1]
                ok = all(v[1][:len(hs)] == hs for v in vs)
                if ok and (len(hs) == len(base) or (len(hs) == len(base) + 1 and hs[-1][0] == 'map' and hs[-1][1:5] == (P, mods, lid, 'part'))):
                    alts = frozenset((g, v[1][len(hs):]) for g, v in zip(guards, vs))
                    if all(not d for g, d in alts):
                        return hv
                    return ('vec', base + (('map', P, mods, lid, 'part', alts),))
        if hv[0] == 's' and all(v[0] == 's' for v in vs):
            base = ev[1] if ev is not None and ev[0] == 's' else None
            if base is not None:
                def after(v, hs):
                    # literal pieces merge, so compare as text where needed
                    if v[:len(hs)] == hs:
                        return v[len(hs):]
                    if hs and hs[-1][0] == 'lit' and v[:len(hs) - 1] == hs[:-1] and len(v) >= len(hs) and v[len(hs) - 1][0] == 'lit' \
                            and v[len(hs) - 1][1].startswith(hs[-1][1]):
                        r = v[len(hs) - 1][1][len(hs[-1][1]):]
                        return cat((('lit', r),), v[len(hs):])
                    return None
                ds = [after(v[1], hv[1]) for v in vs]
                if all(d is not None for d in ds):
                    alts = frozenset(zip(guards, ds))
                    if all(not d for g, d in alts):
                        return hv
                    return ('s', base + (('map', P, mods, lid, 'part', alts),))
        if hv[0] == 'adt' and all(v[0] == 'adt' and v[1:3] == hv[1:3] and len(v[3]) == len(hv[3]) for v in vs):
            es = ev[3] if ev is not None and ev[0] == 'adt' and ev[1:3] == hv[1:3] else [None] * len(hv[3])
            return ('adt', hv[1], hv[2], tuple(self.joinv(es[i], hv[3][i], [v[3][i] for v in vs], guards, P, mods, lid) for i in range(len(hv[3]))))
        if hv[0] == 'tup' and all(v[0] == 'tup' and len(v[1]) == len(hv[1]) for v in vs):
            es = ev[1] if ev is not None and ev[0] == 'tup' and len(ev[1]) == len(hv[1]) else [None] * len(hv[1])
            return ('tup', tuple(self.joinv(es[i], hv[1][i], [v[1][i] for v in vs], guards, P, mods, lid) for i in range(len(hv[1]))))
        if hv[0] == 'box' and all(v[0] == 'box' for v in vs):
            return ('box', self.joinv(ev[1] if ev is not None and ev[0] == 'box' else None, hv[1], [v[1] for v in vs], guards, P, mods, lid))
        if hv[0] == 'cl' and all(v[0] == 'cl' and v[1] == hv[1] for v in vs):
            es = ev[2] if ev is not None and ev[0] == 'cl' else [None] * len(hv[2])
            return ('cl', hv[1], tuple(self.joinv(es[i], hv[2][i], [v[2][i] for v in vs], guards, P, mods, lid) for i in range(len(hv[2]))))
        if hv[0] == 'it':
            return hv      # the iterator itself: restored by the loop
        return top('changed in loop')

    # ---------------------------------------------------------------- calls
    def invoke(self, st, f, args, tag):
        """calls a closure or function value: outcomes with value (result, f')"""
        f0 = f
        tag = (tag, len(self.stack))
        if f[0] == 'ref':
            f0 = self.load(st, f)
        if f0[0] == 'fn':
            c = f0[1].c
            outs = self.call(st, c, args, (0, tag), None)
            return [(o[0], o[1], (o[2], f)) if o[0] == 'ret' else o for o in outs]
        if f0[0] == 'cl':
            fn = self.funcs.get(f0[1])
            if fn is None or not fn.get('body'):
                return [('ret', st.doubt('closure without body'), (top('closure'), f))]
            t0 = fn['body']['locals'][1] if fn['body']['argc'] >= 1 else ''
            byref = self.ty(t0)['k'] == 'ref'
            if not byref:
                outs = self.exec_fn(st, f0[1], [f0] + list(args), 0, tag)
                return [(o[0], o[1], (o[2], f)) if o[0] == 'ret' else o for o in outs]
            if f[0] == 'ref':
                selfarg = f
                outs = self.exec_fn(st, f0[1], [selfarg] + list(args), 0, tag)
                return [(o[0], o[1], (o[2], f)) if o[0] == 'ret' else o for o in outs]
            root = ('T', self.fid(0, tag, f0[1]), 'cl')
            s = st.copy()
            s.mem[root] = f0
            outs = self.exec_fn(s, f0[1], [('ref', root, ())] + list(args), 0, tag)
            res = []
            for o in outs:
                if o[0] == 'ret':
                    nf = o[1].mem.get(root, f0)
                    s2 = o[1].copy()
                    s2.mem.pop(root, None)
                    res.append(('ret', s2, (o[2], nf)))
                else:
                    res.append(o)
            return res
        return [('ret', st.doubt('call of unknown function value'), (top('call'), f))]

    def do_call(self, st, fr, bb, t, vis, work, outs):
        f, dest, target, span = t[1], t[3], t[4], t[7]
        args = [self.operand(st, fr, a) for a in t[2]]
        site = (fr.fid, bb)

        def k(s, v):
            s = s.copy()
            if target is None:
                return []
            if not dest[1]:
                s.mem[('L', fr.fid, dest[0])] = v
            else:
                self.assign(s, fr, dest, v)
            return self.run(s, fr, target, vis)
        if f[0] == 'const' and f[1]['v'][0] == 'fn':
            res = self.call(st, f[1]['v'][1], args, site, k, t)
        else:
            v = self.operand(st, fr, f)
            r = self.invoke(st, v, args, site)
            res = [(o[0], o[1], o[2][0]) if o[0] == 'ret' else o for o in r]
        for o in res:
            if o[0] == 'ret':
                if target is None:
                    outs.append(('panic', o[1], ('diverges', self.callee_name(f), span)))
                    continue
                s = o[1].copy()
                if not dest[1]:
                    s.mem[('L', fr.fid, dest[0])] = o[2]
                else:
                    self.assign(s, fr, dest, o[2])
                work.append((s, target, vis))
            elif o[0] == 'done':
                outs.append(o[1])
            elif o[0] == 'panic' and o[2] == 'here':
                outs.append(('panic', o[1], ('panic', self.callee_name(f), span)))
            else:
                outs.append(o)

    @staticmethod
    def callee_name(f):
        try:
            return f[1]['v'][1]['name']
        except (KeyError, TypeError, IndexError):
            return '?'

    def call(self, st, c, args, site, k=None, term=None):
        """outcomes; ('done', outcome) wraps terminal outcomes of the continuation k (used by `next`)"""
        for h in self.hooks:
            self.term = term
            r = h(self, st, c, args, site)
            if r is not None:
                return r
        kind = c.get('kind')
        if kind == 'virtual':
            d = self.devirt(st, c, args)
            if d is None:
                return [('ret', self.havoc(st, args).doubt('virtual call ' + c['name']), top('virtual call'))]
            c = d
        path, decl = strip_generics(c['path']), strip_generics(c['decl'])
        f = self.funcs.get(c['name'])
        m = self.models.get(path) or self.models.get(decl)
        if m is not None:
            r = m(self, st, args, c, site, k)
            if r is not NotImplemented:
                return r
        if f is not None and f.get('body'):
            return self.exec_fn(st, c['name'], args, site[0], site[1])
        if f is not None and f.get('shim'):
            pass
        ctor = self.ctor(c)
        if ctor is not None:
            return [('ret', st, ('adt', ctor[0], ctor[1], tuple(args)))]
        if path in self.M.PANICS or decl in self.M.PANICS or any(path.startswith(p) for p in self.M.PANIC_PREFIXES):
            return [('panic', st, 'here')]
        if self.opaque and term is not None:
            r = self.opaque(self, st, c, path, args, term)
            if r is not None:
                return r
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        return [('ret', self.havoc(st, args).doubt('unmodelled ' + path), top('result of ' + path))]

    def ctor(self, c):
        """tuple-struct / variant constructor used as a function: (type, variant)"""
        if c['kind'] not in ('item', 'shim', 'other'):
            return None
        p = c['path']
        base, _, last = p.rpartition('::')
        base = strip_generics(base)
        full = strip_generics(p)
        a = self.adts.get(full)
        for n, t in self.types.items():
            if t['k'] == 'adt' and t.get('variants') is not None:
                if t['path'] == full and not t.get('enum'):
                    if not t['args'] or n == c['name'] or ('<' + ', '.join(t['args']) + '>') in c['name']:
                        return n, 0
                if t['path'] == base and t.get('enum'):
                    for i, v in enumerate(t['variants']):
                        if v['name'] == last and (not t['args'] or t['args'] == c.get('targs')):
                            return n, i
        return None

    def devirt(self, st, c, args):
        recv = args[0] if args else None
        if recv is None:
            return None
        v = self.strip(st, recv)
        ty = v[1] if v[0] == 'adt' else v[2] if v[0] == 'sym' else None
        if ty is None:
            return None
        m = c['decl'].rpartition('::')
        name = '<%s as %s>::%s' % (ty, m[0], m[2])
        f = self.funcs.get(name)
        if f is None:
            return None
        return {'name': name, 'path': f['path'], 'decl': c['decl'], 'kind': 'item', 'targs': [], 'dargs': [ty]}

    def havoc(self, st, args):
        s = st.copy()
        for a in args:
            if a[0] == 'ref' and a[1][0] != 'V':
                # conservatively treat every reference as mutable only when it is to a local aggregate
                pass
        return s


LAZY = ('std::sync::lazy_lock::LazyLock', 'core::cell::lazy::LazyCell')


def local_refs(v):
    if not isinstance(v, tuple):
        return False
    if v and v[0] == 'top':
        return True
    if len(v) == 3 and v[0] == 'ref' and v[1][0] != 'V':
        return True
    return any(local_refs(x) for x in v)


class CalleeBox:
    """hashable wrapper of a callee record"""
    __slots__ = ('c', 'n')

    def __init__(self, c):
        self.c = c
        self.n = c['name']

    def __hash__(self):
        return hash(self.n)

    def __eq__(self, o):
        return isinstance(o, CalleeBox) and o.n == self.n

    def __repr__(self):
        return 'fn ' + self.n


def discrete_diff(H, b):
    """cells whose enum variant or truth value differs between two states"""
    out = []

    def go(r, p, x, y):
        if x is y or x == y:
            return
        if x[0] == 'adt' and y[0] == 'adt' and x[1] == y[1]:
            if x[2] != y[2]:
                out.append((r, p, y[2]))
                return
            for i, (u, v) in enumerate(zip(x[3], y[3])):
                go(r, p + (i,), u, v)
        elif x[0] == 'b' and y[0] == 'b' and x[1] != y[1]:
            out.append((r, p, y[1]))
        elif x[0] == 'tup' and y[0] == 'tup':
            for i, (u, v) in enumerate(zip(x[1], y[1])):
                go(r, p + (i,), u, v)
        elif x[0] == 'cl' and y[0] == 'cl' and x[1] == y[1]:
            for i, (u, v) in enumerate(zip(x[2], y[2])):
                go(r, p + (i,), u, v)
    for r, v in H.mem.items():
        if r[0] != 'V' and r in b.mem:
            go(r, (), v, b.mem[r])
    return tuple(sorted(out, key=repr))


def rename_state(s, a, b, P):
    n = s.copy()
    for r, v in list(n.mem.items()):
        if r[0] != 'V':
            n.mem[r] = rename(v, a, b, P)
    n.facts = {rename(c, a, b, P): rename(v, a, b, P) if isinstance(v, (tuple, frozenset)) else v for c, v in n.facts.items()}
    return n


def mentions_path(c, P):
    """does c mention a path that starts with P?"""
    if isinstance(c, tuple):
        if starts(c, P) and len(c) >= len(P):
            return True
        return any(mentions_path(x, P) for x in c if isinstance(x, (tuple, frozenset)))
    if isinstance(c, frozenset):
        return any(mentions_path(x, P) for x in c)
    return False


def mentions_path_e(c, P, e):
    Pe = P + (e,)
    return mentions_path(c, Pe)


def mentions_act(v, P, lid):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'act' and v[2] == (P, lid):
            return True
        return any(mentions_act(x, P, lid) for x in v if isinstance(x, tuple))
    return False


def rename(v, a, b, P):
    """P+(a,) -> P+(b,) inside v"""
    if a == b:
        return v
    Pa, Pb = P + (a,), P + (b,)

    def go(x):
        if isinstance(x, tuple):
            if starts(x, Pa):
                return Pb + x[len(Pa):]
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(v)


def finish(v, tag):
    """marks the loop's own map segments as complete"""
    if isinstance(v, tuple):
        if len(v) == 6 and v[:5] == tag:
            return v[:4] + ('full',) + v[5:]
        out, ch = [], False
        for x in v:
            y = finish(x, tag) if isinstance(x, tuple) else x
            ch = ch or y is not x
            out.append(y)
        return tuple(out) if ch else v
    return v
