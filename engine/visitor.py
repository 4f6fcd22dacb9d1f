"""C08 / C09 / C10: what AST traversal does for any converter.

Every `visit` implementation is interpreted on a symbolic node with a converter about which nothing is
known: each hook call may answer Continue, Skip or an error.  The ghost trace of hook calls and child
visits is compared with the one derived from the node's type definition."""
import sys
from interp import *

VISIT = 'crate::ast::visitor::AstVisitor::visit'
CONV = 'crate::ast::converting::AstConverting'
TR = ('G', 'trace')
EM = ('H', 'converter')
RES = 'core::result::Result<crate::ast::TraversalResult, alloc::string::String>'
TRT = 'crate::ast::TraversalResult'
WMD = 'crate::ast::nodes::WithMetaData'

# fields whose declaration order differs from source order (source order wins): type -> {variant: [field names]}
SOURCE_ORDER = {
    ('crate::ast::nodes::NodeFullExpression', 'LocalVariableDeclaration'): ['identifier_name', 'type_annotation', 'expression', 'containing_expression'],
}


def impls(m):
    """node type -> visit function"""
    out = {}
    for n, f in m['funcs'].items():
        if f.get('method') == 'visit' and f.get('trait') == 'crate::ast::visitor::AstVisitor' and f.get('body'):
            if is_node(f['self_ty']):
                out[f['self_ty']] = n
    return out


def is_node(t):
    return t.startswith('crate::ast::nodes::')


def visitable(I, imp, t):
    return t in imp


def variant_indices(I, t):
    k = I.ty(t)
    names = [v['name'] for v in k['variants']]
    return names


class VisitAnalysis:
    def __init__(self, mir):
        self.m = mir
        self.imp = impls(mir)

    def emit_method(self):
        """node type -> converter hook taking &node"""
        out = {}
        for n, f in self.m['funcs'].items():
            if f.get('trait') == CONV and f.get('body') and f['body']['argc'] == 3:
                t = f['body']['locals'][3]
                k = self.m['types'].get(t, {})
                if k.get('k') == 'ref':
                    out[k['inner']] = f['method']
        return out

    def lists(self, ty):
        """variants of a node with fields that are lists of nodes: [(variant, [fields])]"""
        I = Interp(self.m)
        out = []
        for vi, v in enumerate(I.ty(ty).get('variants') or []):
            fs = [i for i, f in enumerate(v['fields']) if I.ty(f['ty']).get('path') == 'alloc::vec::Vec' and self.visitable_ty(I, I.ty(f['ty'])['args'][0])]
            if fs:
                out.append((vi, fs))
        return out

    def run(self, ty, shape=None):
        """shape: (variant, {field: number of elements}) of a node whose lists have a given length"""
        I = Interp(self.m, budget=150000)
        fn = self.imp[ty]
        self.fixed, self.known = {}, {}
        node = I.sym(('self',), ty)
        if shape:
            vi, ns = shape
            k = I.ty(ty)
            fs = []
            for i, f in enumerate(k['variants'][vi]['fields']):
                p = ('self', ('f', vi, i))
                if i in ns:
                    self.fixed[p] = ns[i]
                    fs.append(('vec', tuple(('el', I.sym(p + (('n', j),), I.ty(f['ty'])['args'][0])) for j in range(ns[i]))))
                else:
                    fs.append(I.sym(p, f['ty']))
            node = ('adt', ty, vi, tuple(fs))
            self.known = {('var', ('self',)): frozenset([vi])}
        whole = norm(node)

        def child_id(v):
            v = norm(v)
            return ('self',) if v == whole else v[1] if v[0] == 'sym' else ('other', v)

        def event(s, ev):
            s = s.copy()
            s.mem[TR] = ('vec', s.mem[TR][1] + (('el', ev),))
            return s

        def hook(I, st, c, args, site):
            decl = strip_generics(c['decl'])
            if decl == VISIT:
                impl = self.m['funcs'].get(c['name'])
                if impl and impl.get('trait') == VISIT.rsplit('::', 1)[0] and not is_node(impl['self_ty']):
                    return None  # a traversal helper for something that is not a node: looked into
                v = I.strip(st, args[0])
                ch = child_id(v)
                em = I.strip(st, args[1])
                if em != ('sym', ('converter',), '#converter'):
                    return [('ret', st.doubt('visit with another converter'), top('visit'))]
                e = ('s', (('err', 'visit', ch),))
                return [('ret', event(st, ('ev', 'visit', ch, 'ok')), ('adt', RES, 0, (('adt', TRT, 0, ()),))),
                        ('ret', event(st, ('ev', 'visit', ch, 'err')), ('adt', RES, 1, (e,)))]
            if decl.startswith('core::cmp::PartialOrd::') and decl.rsplit('::', 1)[1] in ('lt', 'le', 'gt', 'ge') and len(args) == 2:
                a, b = norm(I.strip(st, args[0])), norm(I.strip(st, args[1]))
                if a[0] == b[0] == 'sym' and I.ty(a[2])['k'] == 'adt':
                    # one of the two orders of two positions
                    fn = decl.rsplit('::', 1)[1]
                    if fn in ('gt', 'lt'):
                        a, b, fn = (a, b, {'lt': 'ge', 'gt': 'le'}[fn])
                        return [('ret', st, ('cn', ('nd', fn, a, b)))]
                    return [('ret', st, ('c', ('nd', fn, a, b)))]
            if c['kind'] == 'virtual' and decl.startswith(CONV + '::'):
                m = decl.rsplit('::', 1)[1]
                if m == 'push_source_position':
                    return [('ret', event(st, ('ev', 'push', child_id(I.strip(st, args[1])), child_id(I.strip(st, args[2])))), UNIT)]
                if m == 'pop_source_position':
                    return [('ret', event(st, ('ev', 'pop')), UNIT)]
                mode = I.strip(st, args[1])
                mv = mode[2] if mode[0] == 'adt' else None
                node = child_id(I.strip(st, args[2]))
                if mv is None:
                    st = st.doubt('traversal mode')
                mname = {0: 'Enter', 1: 'Exit'}.get(mv, '?')
                e = ('s', (('err', m, mname),))
                outs = [('ret', event(st, ('ev', 'emit', m, mname, node, 'Continue')), ('adt', RES, 0, (('adt', TRT, 0, ()),)))]
                if mname != 'Exit':
                    outs.append(('ret', event(st, ('ev', 'emit', m, mname, node, 'Skip')), ('adt', RES, 0, (('adt', TRT, 1, ()),))))
                outs.append(('ret', event(st, ('ev', 'emit', m, mname, node, 'err')), ('adt', RES, 1, (e,))))
                return outs
            return None
        I.hooks.append(hook)
        st = St({TR: ('vec', ()), EM: ('sym', ('converter',), '#converter')})
        outs = I.exec_fn(st, fn, [('ref', ('V', node), ()), ('ref', EM, ())], 0, 0)
        return I, outs

    # ------------------------------------------------------------ specification
    def children(self, I, ty, facts, path=('self',)):
        """[(facts', expected child segments)] for each shape of the node compatible with facts"""
        k = I.ty(ty)
        res = []
        poss = facts.get(('var', path), frozenset(range(len(k['variants'])))) if k.get('enum') else [0]
        for vi in sorted(poss):
            v = k['variants'][vi]
            fs = list(enumerate(v['fields']))
            order = SOURCE_ORDER.get((ty, v['name']))
            if order:
                fs.sort(key=lambda f: order.index(f[1]['name']) if f[1]['name'] in order else 99)
            cur = [(dict(facts, **{}), ())]
            if k.get('enum'):
                cur[0][0][('var', path)] = frozenset([vi])
            for i, f in fs:
                nxt = []
                for fc, segs in cur:
                    for fc2, s2 in self.seq_of(I, f['ty'], path + (('f', vi, i),), fc):
                        nxt.append((fc2, segs + s2))
                cur = nxt
            for fc, segs in cur:
                res.append((vi, fc, segs))
        return res

    def seq_of(self, I, t, p, facts):
        """child visits contributed by a field of type t at path p"""
        k = I.ty(t)
        if self.visitable_ty(I, t):
            return [(facts, (('visit', p),))]
        if k['k'] == 'adt':
            if k.get('box'):
                return self.seq_of(I, k['args'][0], p, facts)
            if k['path'] == 'core::option::Option':
                if not self.contains(I, k['args'][0]):
                    return [(facts, ())]
                res = []
                for vi in sorted(facts.get(('var', p), frozenset([0, 1]))):
                    fc = dict(facts)
                    fc[('var', p)] = frozenset([vi])
                    if vi == 0:
                        res.append((fc, ()))
                    else:
                        res += self.seq_of(I, k['args'][0], p + (('f', 1, 0),), fc)
                return res
            if k['path'] == 'alloc::vec::Vec':
                if not self.contains(I, k['args'][0]):
                    return [(facts, ())]
                if p in self.fixed:
                    return [(facts, tuple(x for j in range(self.fixed[p]) for x in self.seq_of(I, k['args'][0], p + (('n', j),), facts)[0][1]))]
                if facts.get(('empty', p)) is True:
                    return [(facts, ())]
                inner = self.seq_of(I, k['args'][0], p + (('e', '*'),), facts)
                return [(facts, (('each', p, inner[0][1]),))]
        return [(facts, ())]

    def visitable_ty(self, I, t):
        return t in self.imp

    def contains(self, I, t):
        k = I.ty(t)
        if t in self.imp:
            return True
        if k['k'] == 'adt' and (k.get('box') or k['path'] in ('core::option::Option', 'alloc::vec::Vec')):
            return self.contains(I, k['args'][0])
        return False


def child_id(v):
    """path of the (part of the) node a value denotes"""
    v = norm(v)
    if v[0] == 'sym':
        return v[1]
    return ('other', v)


def norm(v):
    """erases boxes and re-assembles copies of a symbolic object into the object"""
    if v[0] == 'box':
        return norm(v[1])
    if v[0] == 'ref' and v[1][0] == 'V':
        return norm(v[1][1])
    if v[0] == 's' and len(v[1]) == 1 and v[1][0][0] == 'sp':
        return ('sym', v[1][0][1], 'str')
    if v[0] == 'vec' and len(v[1]) == 1 and v[1][0][0] == 'all' and v[1][0][3] == ():
        return ('sym', v[1][0][1], 'vec')
    if v[0] == 'adt':
        fs = tuple(norm(x) for x in v[3])
        if fs and all(f[0] == 'sym' and f[1] and f[1][-1] == ('f', v[2], i) for i, f in enumerate(fs)):
            base = {f[1][:-1] for f in fs}
            if len(base) == 1:
                return ('sym', base.pop(), v[1])
        return ('adt', v[1], v[2], fs)
    if v[0] == 'tup':
        return ('tup', tuple(norm(x) for x in v[1]))
    return v


def canon_path(p):
    """loop element markers without their loop number"""
    return tuple(('e', '*') if isinstance(s, tuple) and s[0] == 'e' else s for s in p)


def show(p, I=None, ty=None):
    """readable field path"""
    if not isinstance(p, tuple) or not p or p[0] != 'self':
        return str(p)
    out, t = 'self', ty
    for s in p[1:]:
        if s[0] == 'f':
            name = str(s[2])
            if I is not None and t is not None:
                while I.is_box(t):
                    t = I.ty(t)['args'][0]
                try:
                    v = I.ty(t)['variants'][s[1]]
                    f = v['fields'][s[2]]
                    name = (v['name'] + '.' if I.ty(t).get('enum') else '') + f['name']
                    t = f['ty']
                except Exception:
                    t = None
            out += '.' + name
        elif s[0] in ('e', 'n'):
            out += '[..]' if s[0] == 'e' else '[%s]' % s[1]
            if I is not None and t is not None:
                while I.is_box(t):
                    t = I.ty(t)['args'][0]
                a = I.ty(t).get('args')
                t = a[0] if a else None
    return out


def path_ty(I, ty, p):
    """type of the object at path p below a node of type ty, None when unknown"""
    t = ty
    for s in p[1:]:
        while t is not None and I.is_box(t):
            t = I.ty(t)['args'][0]
        if t is None:
            return None
        try:
            if s[0] == 'f':
                t = I.ty(t)['variants'][s[1]]['fields'][s[2]]['ty']
            else:
                t = I.ty(t)['args'][0]
        except Exception:
            return None
    while t is not None and I.is_box(t):
        t = I.ty(t)['args'][0]
    return t


def is_inner_node(I, t, p, NODE):
    """p denotes the `node` part of an object that carries a position"""
    if p[-1:] != (('f', 0, NODE),):
        return False
    pt = path_ty(I, t, p[:-1])
    return pt is not None and I.ty(pt).get('path') == WMD


def check(mir, pid, ck):
    A = VisitAnalysis(mir)
    methods = A.emit_method()
    nodes = sorted(A.imp)
    # fail closed: every node of the AST module has an implementation
    I0 = Interp(mir)
    have = {strip_ty(t) for t in nodes}
    n_paths = 0
    wmd = None
    for t in nodes:
        if I0.ty(t).get('path') == WMD:
            names = [f['name'] for f in I0.ty(t)['variants'][0]['fields']]
            wmd = {n: i for i, n in enumerate(names)}
    if not nodes or wmd is None:
        ck.bad('crate::ast', 'no traversal implementations found')
        return
    NODE, START, END = wmd.get('node', 0), wmd.get('start', 1), wmd.get('end', 2)
    for x in sorted(methods):
        if is_node(x) and x not in A.imp:
            ck.bad(x, 'AST node type without a traversal implementation')
    for t in nodes:
        fn = A.imp[t]
        f = mir['funcs'][fn]
        where = '%s (%s)' % (fn, f['span'].replace('/repo/', ''))
        shapes = [None] + [(vi, {i: n for i in fs}) for vi, fs in A.lists(t) for n in (0, 1, 2, 3)]
        covered = {}
        for shape in shapes:
            n_paths += one(A, mir, pid, ck, t, fn, where, methods, (NODE, START, END), covered, shape)
        I = I0
        is_wmd = I.ty(t).get('path') == WMD
        A.fixed = {}
        # completeness: the all-Continue path exists for every shape
        if pid == 'C08' and not any(u.startswith(where) for u in ck.undet):
            for vi, fc, segs in A.children(I, t, {}, ('self',)) if not is_wmd else []:
                if not any(c == vi for c in covered):
                    ck.bad(where, 'no complete traversal of variant %s' % I.ty(t)['variants'][vi]['name'])
    ck.cov['visit_implementations'] = len(nodes)
    ck.cov['paths'] = n_paths
    ck.cov['converter_hooks'] = len(methods)


def one(A, mir, pid, ck, t, fn, where, methods, W, covered, shape):
    """the traversal of an arbitrary node of a type, or of one whose lists have a given length"""
    try:
        I, outs = A.run(t, shape)
    except Budget as e:
        ck.unknown(where, str(e))
        return 0
    is_wmd = I.ty(t).get('path') == WMD
    inner = I.ty(t)['args'][0] if is_wmd else None
    m = methods.get(t)
    n_paths = 0
    for o in outs:
        n_paths += 1
        kind, st = o[0], o[1]
        if kind == 'panic':
            if st.und:
                ck.unknown(where, 'path to a panic under unknown facts: ' + '; '.join(st.und))
            else:
                if pid == 'C08':
                    ck.bad(where, 'a path of the traversal aborts (%s) for %s' % (pan(o[2]), facts_str(I, st, t)))
            continue
        if kind != 'ret':
            ck.unknown(where, kind + ': ' + str(o[2]))
            continue
        ret = o[2]
        trace = st.mem[TR][1]
        und = st.und
        res = compare(A, I, t, is_wmd, inner, m, trace, ret, st, W, covered)
        if und or any(r[0] == 'unk' for r in res):
            # definite mismatches may be artefacts of what was not understood
            ck.unknown(where, '; '.join(und) or [r for r in res if r[0] == 'unk'][0][1])
            continue
        mine = [r for r in res if r[0] == pid]
        if mine:
            for r in mine:
                ck.bad(where, r[1])
        else:
            ck.ok()
            if len(ck.samples) < 8:
                ck.sample({'function': fn, 'path': [ev_str(e, I, t) for e in trace], 'result': ret_str(ret)})
    return n_paths


def strip_ty(t):
    return t.split('<')[0]


def pan(i):
    return ' '.join(str(x) for x in i) if isinstance(i, tuple) else str(i)


def facts_str(I, st, t):
    vs = st.facts.get(('var', ('self',)))
    if vs and I.ty(t).get('enum'):
        return ', '.join(I.ty(t)['variants'][i]['name'] for i in sorted(vs))
    return 'any value'


def ret_str(v):
    if v[0] == 'adt' and v[2] == 0:
        return 'Ok(%s)' % ({0: 'Continue', 1: 'SkipChildren'}.get(v[3][0][2], '?') if v[3] and v[3][0][0] == 'adt' else '?')
    if v[0] == 'adt':
        return 'Err(%s)' % (v[3][0],)
    return str(v)


def ev_str(e, I, t):
    if e[0] == 'el':
        ev = e[1]
        if ev[0] != 'ev':
            return str(ev)
        if ev[1] == 'visit':
            return 'visit %s -> %s' % (show(ev[2], I, t), ev[3])
        if ev[1] == 'emit':
            return '%s(%s, %s) -> %s' % (ev[2], ev[3], show(ev[4], I, t), ev[5])
        if ev[1] == 'push':
            return 'push_source_position(%s, %s)' % (show(ev[2], I, t), show(ev[3], I, t))
        return 'pop_source_position()'
    if e[0] == 'map':
        return 'for each of %s%s: [%s]' % (show(e[1], I, t), ''.join(str(m) for m in e[2]), ' | '.join(', '.join(ev_str(x, I, t) for x in d) for g, d in sorted(e[5], key=repr)))
    return str(e)


def compare(A, I, t, is_wmd, inner, m, trace, ret, st, W, covered):
    """[(property, message)]"""
    NODE, START, END = W
    res = []
    self_p = ('self',)
    flat = list(trace)

    # ---- positions: balanced, and labelled with the span of the node visited inside
    res += positions(I, t, flat, is_wmd, W)
    # drop positions for the rest
    plain = drop_positions(I, t, flat, W, is_wmd)
    if plain is None:
        return res + [('unk', 'positions inside an unresolved segment')]
    # ---- errors: an error ends the traversal and is the result
    err = None
    for j, e in enumerate(plain):
        er = event_error(e)
        if er is not None:
            err = (j, er)
            break
    if err is not None:
        if err[0] != len(plain) - 1:
            nx = plain[err[0] + 1]
            res.append(('C09', 'after an error from %s the traversal goes on with %s' % (ev_str(plain[err[0]], I, t), ev_str(nx, I, t))))
        if not (ret[0] == 'adt' and ret[2] == 1):
            res.append(('C09', 'the error from %s is not reported: result %s' % (ev_str(plain[err[0]], I, t), ret_str(ret))))
        elif ret[3][0] != err[1]:
            if ret[3][0][0] == 'top':
                res.append(('unk', 'error value not resolved'))
            else:
                res.append(('C09', 'the error from %s is replaced by %s' % (ev_str(plain[err[0]], I, t), ret[3][0])))
    else:
        if ret[0] != 'adt':
            res.append(('unk', 'result not resolved'))
            return res
        if ret[2] == 1:
            res.append(('C09', 'an error is made up although every hook and child succeeded: %s' % (ret_str(ret),)))
            return res
        if ret[3] and ret[3][0][0] == 'adt' and ret[3][0][2] != 0:
            res.append(('C08', 'the traversal of a completed node answers SkipChildren'))
    if is_wmd:
        want = [('visit', self_p + (('f', 0, NODE),))]
        got = [(e[1][1], e[1][2]) for e in plain if e[0] == 'el']
        if len(plain) != 1 or got != want:
            res.append(('C08', 'a node with position is traversed as [%s] instead of visiting the node once' % '; '.join(ev_str(e, I, t) for e in plain)))
        return res
    # ---- enter / exit
    if not plain or plain[0][0] != 'el' or plain[0][1][1] != 'emit' or plain[0][1][3] != 'Enter':
        if m is not None:
            res.append(('C08', 'the traversal does not start with the Enter hook: %s' % ([ev_str(e, I, t) for e in plain[:1]] or 'nothing')))
        return res
    ent = plain[0][1]
    if m is not None and ent[2] != m:
        res.append(('C08', 'Enter calls hook %s, the hook of this node is %s' % (ent[2], m)))
    if ent[4] != self_p:
        res.append(('C08', 'the Enter hook is given %s instead of the node itself' % show(ent[4], I, t)))
    if ent[5] == 'err':
        return res
    if ent[5] == 'Skip':
        if len(plain) > 1:
            res.append(('C08', 'after SkipChildren on Enter the traversal goes on with %s' % ev_str(plain[1], I, t)))
        return res
    body = plain[1:]
    ex = None
    if err is None:
        if body and body[-1][0] == 'el' and body[-1][1][1] == 'emit' and body[-1][1][3] == 'Exit':
            ex = body.pop()[1]
        else:
            # which shape is this?
            res.append(('C08', 'no Exit hook at the end of a completed traversal (%s)' % facts_str(I, st, t)))
    elif err[0] == len(plain) - 1 and body and body[-1][0] == 'el' and body[-1][1][1] == 'emit' and body[-1][1][3] == 'Exit':
        ex = body.pop()[1]
        complete = True
    if ex is not None:
        if m is not None and ex[2] != m:
            res.append(('C08', 'Exit calls hook %s, the hook of this node is %s' % (ex[2], m)))
        if ex[4] != self_p:
            res.append(('C08', 'the Exit hook is given %s instead of the node itself' % show(ex[4], I, t)))
    prefix = err is not None and ex is None
    # ---- children
    for vi, fc, want in A.children(I, t, {**dict(st.facts), **A.known}, self_p):
        r = match_children(I, t, want, body, prefix)
        if r == 'unk':
            res.append(('unk', 'children not resolved'))
        elif r is not None:
            vn = I.ty(t)['variants'][vi]['name']
            res.append(('C08', '%s: %s' % (vn, r)))
        elif not prefix:
            covered[vi] = True
    return res


def event_error(e):
    if e[0] == 'el':
        ev = e[1]
        if ev[1] == 'visit' and ev[3] == 'err':
            return ('s', (('err', 'visit', ev[2]),))
        if ev[1] == 'emit' and ev[5] == 'err':
            return ('s', (('err', ev[2], ev[3]),))
    if e[0] == 'map':
        for g, d in e[5]:
            for x in d:
                r = event_error(x)
                if r is not None:
                    return r
    return None


def match_children(I, t, want, got, prefix):
    """None if the trace `got` is the expected one (or a prefix of it ending in an error)"""
    i = 0
    got = list(got)

    def g(e):
        return ev_str(e, I, t)
    for w in want:
        if i >= len(got):
            if prefix:
                return None
            return '%s is not visited' % show(w[1], I, t)
        e = got[i]
        if w[0] == 'visit':
            if e[0] == 'el' and e[1][1] == 'visit':
                if canon_path(e[1][2]) == canon_path(w[1]):
                    i += 1
                    continue
                return 'visits %s where %s is expected' % (show(e[1][2], I, t), show(w[1], I, t))
            return 'has "%s" where a visit of %s is expected' % (g(e), show(w[1], I, t))
        # each
        if e[0] == 'map':
            if e[1] != w[1]:
                return 'visits the elements of %s where those of %s are expected' % (show(e[1], I, t), show(w[1], I, t))
            if e[2] != ():
                return 'visits the elements of %s only in part or in another order (%s)' % (show(w[1], I, t), ', '.join(map(str, e[2])))
            for gd, d in e[5]:
                if len(d) < len(w[2]) or [x[0] for x in d] != ['el'] * len(w[2]):
                    if not d or len(d) < len(w[2]):
                        return 'skips elements of %s' % show(w[1], I, t) if e[4] == 'full' or not prefix else 'skips elements of %s' % show(w[1], I, t)
                    return 'visits more than the elements of %s: [%s]' % (show(w[1], I, t), ', '.join(g(x) for x in d))
                for x, y in zip(d, w[2]):
                    if x[1][1] != 'visit' or canon_path(x[1][2]) != canon_path(y[1]):
                        return 'has "%s" where a visit of each element of %s is expected' % (g(x), show(w[1], I, t))
            i += 1
            if e[4] == 'part':
                # stopped within the loop: the failing element follows
                if i < len(got) and got[i][0] == 'el' and got[i][1][1] == 'visit' and canon_path(got[i][1][2]) == canon_path(w[2][0][1]):
                    i += 1
                    if i < len(got):
                        return 'goes on after stopping among the elements of %s' % show(w[1], I, t)
                    return None if prefix else 'stops among the elements of %s' % show(w[1], I, t)
                return 'stops among the elements of %s' % show(w[1], I, t)
            continue
        if e[0] == 'el' and e[1][1] == 'visit' and canon_path(e[1][2]) == canon_path(w[2][0][1]) and prefix and i == len(got) - 1:
            return None
        if e[0] == 'unk':
            return 'unk'
        return 'does "%s" where visits of each element of %s are expected' % (g(e), show(w[1], I, t))
    if i < len(got):
        return 'also does "%s"' % g(got[i])
    return None


def positions(I, t, trace, is_wmd, W):
    """every push is popped, on every path, and names the span of the node traversed in between"""
    NODE, START, END = W
    res, stack = [], []

    def walk(segs, top_level):
        for e in segs:
            if e[0] == 'map':
                for g, d in e[5]:
                    depth = len(stack)
                    walk(d, False)
                    if len(stack) != depth:
                        res.append(('C10', 'source positions are not balanced within each element of %s' % show(e[1], I, t)))
                        del stack[depth:]
                continue
            if e[0] != 'el':
                continue
            ev = e[1]
            if ev[1] == 'push':
                stack.append([ev, 0])
            elif ev[1] == 'pop':
                if not stack:
                    res.append(('C10', 'a source position is popped that was not pushed'))
                    continue
                p, n = stack.pop()
                if n == 0:
                    res.append(('C10', 'a source position is pushed and popped around nothing'))
            else:
                node = ev[2] if ev[1] == 'visit' else ev[4]
                for p in stack:
                    p[1] += 1
                if stack:
                    s, en = stack[-1][0][2], stack[-1][0][3]
                    if not (node and is_inner_node(I, t, node, NODE) and s == node[:-1] + (('f', 0, START),) and en == node[:-1] + (('f', 0, END),)):
                        if s[:1] == ('other',) or en[:1] == ('other',):
                            res.append(('C10', 'the position pushed around %s is computed, not the span of the node' % show(node, I, t)))
                        elif s == node + (('f', 0, START),) and en == node + (('f', 0, END),):
                            res.append(('C10', 'the position of %s is pushed although its traversal pushes it itself' % show(node, I, t)))
                        else:
                            res.append(('C10', 'the position pushed around %s is (%s, %s) instead of the node\'s own start and end' % (show(node, I, t), show(s, I, t), show(en, I, t))))
                elif is_wmd:
                    res.append(('C10', 'the node is traversed without its source position being pushed'))
    walk(trace, True)
    if stack:
        res.append(('C10', 'source position (%s, %s) is pushed but not popped on a path with result after [%s]' % (
            show(stack[-1][0][2], I, t), show(stack[-1][0][3], I, t), '; '.join(ev_str(e, I, t) for e in trace))))
    return res


def drop_positions(I, t, trace, W, is_wmd):
    """trace without push/pop; a visit of `c.node` between push/pop of c counts as a visit of c"""
    NODE, START, END = W

    def go(segs):
        out, depth = [], []
        for e in segs:
            if e[0] == 'map':
                alts = frozenset((g, tuple(go(d))) for g, d in e[5])
                if all(not d for g, d in alts):
                    continue
                out.append(e[:5] + (alts,))
                continue
            if e[0] == 'el' and e[1][1] == 'push':
                depth.append(e[1])
                continue
            if e[0] == 'el' and e[1][1] == 'pop':
                if depth:
                    depth.pop()
                continue
            if e[0] == 'el' and e[1][1] == 'visit' and depth and not is_wmd:
                n = e[1][2]
                if is_inner_node(I, t, n, NODE):
                    e = ('el', ('ev', 'visit', n[:-1], e[1][3]))
            out.append(e)
        return out
    return go(list(trace))
