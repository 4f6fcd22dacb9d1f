"""C14: the steps of parsing a contract and what becomes of their errors.

`from_str` and `Contract::parse` are interpreted with their fallible steps (reading the file, the generated
parser, the conversion of a type) replaced by "succeeds with some value / fails with some error value"; each
outcome on which a step failed must be an error carrying that step's error value, each outcome without a
failure the value of the last step."""
import common
from interp import *
import emitter
from emitter import Conv, Match, Anchor, ENTRY, PROG, has_top, err_marker, panic_text, outcome_kind, field_index

PARSE = 'crate::contract::Contract::parse'
ERR = 'crate::error::Error'
CONTRACT = 'crate::contract::Contract'
SRC = ('s', (('sp', ('src',)),))
FILE = ('s', (('sp', ('file',)),))
PERR = ('perr',)
IOERR = ('ioerr',)


def mentions(v, head):
    """does the value contain a part whose provenance starts with head"""
    if isinstance(v, tuple):
        if v[:len(head)] == head:
            return True
        return any(mentions(x, head) for x in v)
    if isinstance(v, frozenset):
        return any(mentions(x, head) for x in v)
    return False


def ghost(st, k, v):
    return st.fact(('G', k), st.facts.get(('G', k), ()) + (v,))


def deep(I, st, v, n=0):
    v = I.strip(st, v)
    if v[0] in ('tup',):
        return (v[0], tuple(deep(I, st, x, n + 1) for x in v[1])) if n < 6 else v
    return v


# what looks at a file without reading it
LOOKS = ('exists', 'try_exists', 'is_file', 'is_dir', 'is_symlink', 'metadata', 'symlink_metadata', 'canonicalize', 'read_link', 'read_dir')


class Steps(Conv):
    """interpreter with every step failing or succeeding"""

    def make(self, budget=400000, error=None):
        """error: the only outcome of the generated parser"""
        I = self.interp(lambda I: I.sym(('prog',), PROG), True, budget)
        base = I.hooks[0]
        funcs = self.m['funcs']

        def result(c, what):
            f = funcs.get(c['name'])
            if f and f.get('body'):
                return f['body']['locals'][0]
            return 'core::result::Result<_, %s>' % what

        def hook(I, st, c, args, site):
            p = strip_generics(c['path'])
            if p.startswith('crate::parser::parser::') and p.endswith('::parse'):
                what = tuple(deep(I, st, a) for a in args)
                s = ghost(st, 'parse', (p.split('::')[-2], what))
                t = result(c, '_')
                k = I.ty(t)
                et = k['args'][1] if k.get('args') and len(k['args']) > 1 else 'lalrpop_util::ParseError'
                if error is not None:
                    return [('ret', ghost(s, 'failed', PERR), ('adt', t, 1, (error(I, et),)))]
                return [('ret', s, ('adt', t, 0, (I.sym(('prog',), PROG),))),
                        ('ret', ghost(s, 'failed', PERR), ('adt', t, 1, (I.sym(PERR, et),)))]
            if p == 'crate::parser::lexer::Lexer::new':
                return [('ret', st, ('sym', ('lexer', I.strip(st, args[0])), '#lexer'))]
            if p in ('std::fs::read_to_string', 'std::fs::read', 'std::fs::File::open', 'std::io::read_to_string', 'std::io::Read::read_to_string', 'std::io::Read::read_to_end', 'std::fs::OpenOptions::open') \
                    or c['decl'].endswith(('::Read::read_to_string', '::Read::read_to_end')):
                last = p.rsplit('::', 1)[1]
                a = I.strip(st, args[0])
                part = None
                if p.startswith('std::fs::') and last in ('open', 'read_to_string', 'read') and not c['decl'].startswith('std::io::'):
                    s = ghost(st, 'open', I.strip(st, args[1]) if 'OpenOptions' in p else a)
                elif a == ('sym', ('fileh',), '#file'):
                    s = st
                elif a[0] == 'sym' and a[1][:1] == ('opq',) and mentions(a, ('fileh',)):
                    s, part = st, ('opq', last, (a,))
                else:
                    return None
                bad = ('ret', ghost(s, 'failed', IOERR), ('adt', 'core::result::Result<_, _>', 1, (('sym', IOERR, 'core::io::error::Error'),)))
                text = ('s', (('sp', part),)) if part else FILE
                raw = ('sym', part, '#bytes') if part else ('sym', ('fbytes',), '#bytes')
                if last == 'open':
                    good = ('sym', ('fileh',), '#file')
                elif last == 'read':
                    good = raw
                elif len(args) == 1:
                    good = text
                else:
                    buf = args[1]
                    if buf[0] != 'ref' or buf[1][0] == 'V' or lit_of(I.strip(s, buf)) not in ('',):
                        return None
                    s = s.copy()
                    good = ('num', 'size')
                    I.write(s, buf[1], buf[2], text if last == 'read_to_string' else raw)
                return [('ret', s, ('adt', 'core::result::Result<_, _>', 0, (good,))), bad]
            if c['decl'] in ('std::io::Read::take', 'std::io::Read::chain') and len(args) == 2 and mentions(I.strip(st, args[0]), ('fileh',)):
                n = I.strip(st, args[1])
                if c['decl'].endswith('take') and (n[0] != 'i' or n[1] >= 1 << 62):
                    return None     # as much as there is, perhaps
                return [('ret', st, ('sym', ('opq', c['decl'].rsplit('::', 1)[1], (I.strip(st, args[0]), n)), '#file'))]
            if p.startswith(('std::fs::', 'std::path::Path::')) and p.rsplit('::', 1)[1] in LOOKS and args:
                st = ghost(st, 'look', (I.strip(st, args[0]), p.rsplit('::', 1)[1]))
                return base(I, st, c, args, site) or (self.fresh(I, st, c, p, args, I.term) if I.term and self.given(I, st, args[0]) else None)
            if p.startswith('std::fs::Metadata::') and p.rsplit('::', 1)[1] in ('modified', 'accessed', 'created', 'permissions'):
                st = ghost(st, 'look', (I.strip(st, args[0]), p.rsplit('::', 1)[1]))
                return base(I, st, c, args, site) or (self.fresh(I, st, c, p, args, I.term) if I.term and self.given(I, st, args[0]) else None)
            if p in ('std::io::BufReader::new', 'std::io::buffered::bufreader::BufReader::new'):
                return [('ret', st, args[0])]
            if p in ('alloc::string::String::from_utf8', 'core::str::converts::from_utf8', 'core::str::from_utf8'):
                if I.strip(st, args[0]) == ('sym', ('fbytes',), '#bytes'):
                    e = ('sym', ('utf8err',), 'alloc::string::FromUtf8Error')
                    return [('ret', st, ('adt', 'core::result::Result<_, _>', 0, (FILE,))), ('ret', ghost(st, 'failed', ('utf8err',)), ('adt', 'core::result::Result<_, _>', 1, (e,)))]
            if p in ('alloc::string::String::from_utf8_lossy', 'alloc::string::String::from_utf8_lossy_owned', 'alloc::string::String::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked'):
                return [('ret', st, ('s', (('sp', ('content read without checking that it is UTF-8',)),)))]
            return base(I, st, c, args, site)
        I.hooks[0] = hook
        I.hooks.append(self.textop)
        I.opaque = self.opaque
        return I

    # what is done to the given text, path or an error by functions without a model: some other value
    SAME = ('as_str', 'to_string', 'to_owned', 'into', 'from', 'as_ref', 'borrow', 'deref', 'clone', 'parse', 'len', 'is_empty', 'as_path', 'into_string', 'into_boxed_str', 'to_path_buf', 'as_mut', 'new', 'fmt')

    def given(self, I, st, v):
        v = I.strip(st, v)
        if v[0] == 's':
            return any(p[0] == 'sp' and (p[1][:1] in (('src',), ('file',)) or p[1][:1] == ('opq',)) for p in v[1])
        return v[0] == 'sym' and v[1][:1] in (PERR, IOERR, ('path',), ('opq',), ('fbytes',), ('fileh',))

    def fresh(self, I, st, c, path, args, term):
        """the call's result as an opaque value made of its arguments; what it may change becomes opaque too"""
        key = ('opq', path.rsplit('::', 1)[1], tuple(deep(I, st, a) for a in args))
        s = st.copy()
        for a, t in zip(args, term[5]):
            if t.startswith('&mut ') and a[0] == 'ref' and a[1][0] != 'V':
                I.write(s, a[1], a[2], ('sym', key + ('after',), t[5:]))
        return [('ret', s, I.sym(key, term[6]))]

    def textop(self, I, st, c, args, site):
        p = strip_generics(c['path'])
        t = I.term
        if t is None or not args:
            return None
        if (p.startswith('core::str::') or p.startswith('alloc::str::')) and p.rsplit('::', 1)[1] not in self.SAME and self.given(I, st, args[0]):
            return self.fresh(I, st, c, p, args, t)
        if c['decl'] in ('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back') and self.given(I, st, args[0]):
            return self.fresh(I, st, c, p, args, t)
        f = I.funcs.get(c['name'])
        if not (f and f.get('local')) and p not in I.models and strip_generics(c['decl']) not in I.models and p.rsplit('::', 1)[1] not in self.SAME \
                and '<' not in p[:1] and self.given(I, st, args[0]) and I.strip(st, args[0])[0] == 'sym' and 'closure' not in p:
            return self.fresh(I, st, c, p, args, t)
        return None

    def opaque(self, I, st, c, path, args, term):
        if args and any(self.given(I, st, a) for a in args) and path.rsplit('::', 1)[1] not in self.SAME:
            return self.fresh(I, st, c, path, args, term)
        return None

    def summary(self, I, st, c, args, i, v, site):
        outs = Conv.summary(self, I, st, c, args, i, v, site)
        return [('ret', ghost(o[1], 'failed', ('err',)), o[2]) if o[0] == 'ret' and err_marker(o[2]) else o for o in outs]


def opaque_of(v):
    if isinstance(v, tuple):
        if v[:1] == ('opq',) and len(v) >= 3:
            return v
        for x in v:
            r = opaque_of(x)
            if r:
                return r
    return None


def value_name(I, v):
    o = opaque_of(v)
    if o:
        return 'what %s makes of %s' % (o[1], ', '.join(value_name(I, a) for a in o[2][:1]))
    if v == SRC:
        return 'the text'
    if v == FILE:
        return 'the content of the file'
    if v[:2] == ('sym', ('path',)):
        return 'the path'
    try:
        return Match(I, PROG).show(v)[:800]
    except Exception:
        return str(v)[:800]


HEADS = {PERR: 'the syntax error', ('err',): 'the conversion error', IOERR: 'the I/O error', ('utf8err',): 'the error about invalid UTF-8'}


def judge(I, ck, where, outs, src, srcname):
    """each outcome of an entry point that parses `src`"""
    seen = {'ok': 0}
    for h in HEADS:
        seen[h] = 0
    for o in outs:
        st = o[1]
        kind = outcome_kind(I, o)
        failed = st.facts.get(('G', 'failed'), ())
        parses = st.facts.get(('G', 'parse'), ())
        if kind[0] == 'undet' or st.und:
            ck.unknown(where, str(kind[1] if kind[0] == 'undet' else st.und[0]))
            continue
        if kind[0] == 'panic':
            if failed:
                ck.bad(where, '%s leads to a panic instead of being returned: %s' % (HEADS[failed[0]], panic_text(kind[1])))
            else:
                ck.unknown(where, 'panic (C01)')
            continue
        # which text is parsed
        for name, what in parses:
            lx = next((a for a in what if a[0] == 'sym' and a[1][:1] == ('lexer',)), None)
            if name != 'ProgramParser':
                ck.bad(where, 'the text is parsed with %s, not as a program' % name)
            elif lx is None:
                if any(has_top(a) for a in what):
                    ck.unknown(where, 'tokens given to the parser not known')
                else:
                    ck.bad(where, 'the parser is not given the tokens of the whole %s: %s' % (srcname, [value_name(I, a) for a in what][1:]))
            elif lx[1][1] != src:
                if has_top(lx[1][1]):
                    ck.unknown(where, 'text given to the lexer not known')
                else:
                    ck.bad(where, 'the text that is parsed is %s, not the whole %s' % (value_name(I, lx[1][1]), srcname))
            else:
                ck.ok()
        if kind[0] == 'ok':
            seen['ok'] += 1
            if failed:
                ck.bad(where, 'a contract is returned although a step failed: %s is lost' % HEADS[failed[0]])
            elif not parses:
                if has_top(kind[1]):
                    ck.unknown(where, 'result not known')
                else:
                    ck.bad(where, 'a contract is returned without parsing the text: %s' % value_name(I, kind[1]))
            else:
                ck.ok()
            continue
        v = kind[1]
        if not failed:
            if v[0] == 'adt' and v[1] == ERR and variant_name(I, v) == 'ParseError':
                ck.ok()     # raised by the conversion itself
            elif has_top(v) or v[0] != 'adt':
                ck.unknown(where, 'error not known')
            else:
                ck.bad(where, 'fails with %s although nothing failed' % value_name(I, v))
            continue
        for h in failed[:1]:
            seen[h] = seen.get(h, 0) + 1
            if v[0] != 'adt' or v[1] != ERR:
                ck.unknown(where, 'error not known')
                continue
            vn = variant_name(I, v)
            want = 'IoError' if h in (IOERR, ('utf8err',)) else 'ParseError'
            if vn != want:
                ck.bad(where, '%s is reported as %s instead of %s' % (HEADS[h], vn, want))
            elif not any(mentions(x, h) for x in v[3]):
                if has_top(v):
                    ck.unknown(where, 'error not known')
                else:
                    ck.bad(where, '%s is reported without its message: %s' % (HEADS[h], value_name(I, v)))
            elif h == IOERR and v[3][0] != ('sym', IOERR, 'core::io::error::Error'):
                ck.bad(where, 'the I/O error is not returned unchanged: %s' % value_name(I, v))
            else:
                ck.ok()
    return seen


def variant_name(I, v):
    return I.ty(v[1])['variants'][v[2]]['name']


def position(I, t, text, at):
    k = I.ty(t)
    names = [f['name'] for f in k['variants'][0]['fields']]
    b = text.encode()[:at].decode()
    val = {'position': at, 'line': b.count('\n'), 'column': len(b.rsplit('\n', 1)[-1].encode())}
    if not set(names) <= set(val):
        raise Anchor('fields of a position')
    return ('adt', t, 0, tuple(('i', val[n]) for n in names))


def failing(I, et, sc):
    """the error value of the generated parser for a text"""
    text, kind, word, tok = sc
    k = I.ty(et)
    vs = k.get('variants') or []
    vi = next((i for i, v in enumerate(vs) if v['name'] == kind), None)
    if vi is None or k.get('path') != 'lalrpop_util::ParseError':
        raise Anchor('error of the generated parser')
    pt, tt = k['args'][:2]
    vals = []
    at = text.index(word) if kind == 'UnrecognizedToken' else len(text[:text.index(word)].encode()) + len(word)
    at = len(text[:at].encode()) if kind == 'UnrecognizedToken' else at
    for f in vs[vi]['fields']:
        if f['name'] == 'location':
            vals.append(position(I, pt, text, at))
        elif f['name'] == 'expected':
            vals.append(('vec', tuple(('el', lit(x)) for x in ('"contract"', '"import"', '"library"'))))
        elif f['name'] == 'token':
            tv = I.ty(tt).get('variants') or []
            ti = next((i for i, v in enumerate(tv) if v['name'] == tok), None)
            if ti is None:
                raise Anchor('no token ' + tok)
            tok_v = ('adt', tt, ti, tuple(lit(word) for _ in tv[ti]['fields']))
            vals.append(('tup', (position(I, pt, text, at), tok_v, position(I, pt, text, at + len(word.encode())))))
        else:
            raise Anchor('error of the generated parser')
    return ('adt', et, vi, tuple(vals))


def scenarios():
    """(text, kind of the syntax error, its token or the last token, token variant)"""
    out = [('library', 'UnrecognizedToken', 'library', 'Library'), ('', 'UnrecognizedEof', '', ''), ('scilla_version 0', 'UnrecognizedEof', '0', ''), ('\n\n\tscilla_version\n', 'UnrecognizedEof', 'scilla_version', ''),
           ('scilla_version 0\nlibrary L\n\ncontract', 'UnrecognizedEof', 'contract', '')]
    for k in range(4):
        a = 'a' * k
        s = '"' + a + '\u4e2d' * 250 + '"'
        out.append(('scilla_version ' + s, 'UnrecognizedToken', s, 'StringLiteral'))
        out.append(('scilla_version library ' + a + '\u4e2d' * 250, 'UnrecognizedToken', 'library', 'Library'))
        out.append(('(*' + a + '\u4e2d' * 250 + '*) library', 'UnrecognizedToken', 'library', 'Library'))
        out.append(('(*' + a + '\u4e2d\n' * 250 + '*) library (*' + '\u4e2d\n' * 9 + '*)', 'UnrecognizedToken', 'library', 'Library'))
        out.append(('scilla_version 0 (*' + a + '\u4e2d' * 250 + '*)', 'UnrecognizedEof', '0', ''))
    return out


def concrete_errors(m, ck):
    """what becomes of the syntax error of certain texts, whose error value is known"""
    C = Steps(m)
    for sc in scenarios():
        where = 'Contract::from_str for the text %s' % repr(sc[0] if len(sc[0]) < 60 else sc[0][:40] + '...' + sc[0][-12:])
        try:
            I = C.make(60000, error=lambda I, et: failing(I, et, sc))
            outs = I.exec_fn(St({}), ENTRY, [lit(sc[0])], 0, 0)
        except (Budget, Anchor) as e:
            ck.unknown(where, str(e))
            continue
        for o in outs:
            kind = outcome_kind(I, o)
            if kind[0] == 'undet' or o[1].und:
                ck.unknown(where, str(kind[1] if kind[0] == 'undet' else o[1].und[0]))
            elif kind[0] == 'panic':
                ck.bad(where, 'its syntax error leads to a panic instead of being returned: ' + panic_text(kind[1]))
            elif kind[0] == 'ok':
                ck.bad(where, 'a contract is returned although the text has a syntax error')
            else:
                ck.ok()


def display_error(m, ck):
    """the text of an error carries the message it holds"""
    I = Interp(m)
    k = I.ty(ERR)
    n = '<%s as core::fmt::Display>::fmt' % ERR
    if n not in m['funcs'] or not k.get('variants'):
        raise Anchor('no Display for ' + ERR)
    for vi, vd in enumerate(k['variants']):
        where = 'Display of Error::' + vd['name']
        I = Interp(m)
        e = ('adt', ERR, vi, tuple(I.sym(('e', i), f['ty']) if not I.is_string(f['ty']) else ('s', (('sp', ('e', i)),)) for i, f in enumerate(vd['fields'])))
        root = ('T', 0, 'fmtr')
        st = St({root: ('fmtr', lit(''))})
        for o in I.exec_fn(st, n, [('ref', ('V', e), ()), ('ref', root, ())], 0, 0):
            if o[0] != 'ret' or o[1].und:
                ck.unknown(where, str(o[2])[:800] if o[0] != 'ret' else o[1].und[0])
                continue
            t = o[1].mem.get(root, top('text'))
            for i, f in enumerate(vd['fields']):
                if mentions(t, ('e', i)):
                    ck.ok()
                elif has_top(t):
                    ck.unknown(where, 'text not known')
                else:
                    ck.bad(where, 'does not carry the message: %s' % value_name(I, t[1]))


def check(m, prods, ck):
    if PARSE not in m['funcs'] or ENTRY not in m['funcs']:
        raise Anchor('Contract::parse or Contract::from_str is missing')
    C = Steps(m)
    # the grammar must not recover from syntax errors
    rec = [nt for nt, alts in prods['prods'].items() for a in alts if '!' in a[0] or 'error' in a[0]]
    if rec:
        ck.bad('grammar', 'rule %s recovers from syntax errors: a program is accepted although part of it is not' % rec[0])
    else:
        ck.ok(sum(len(a) for a in prods['prods'].values()))
    I = C.make()
    try:
        outs = I.exec_fn(St({}), ENTRY, [SRC], 0, 0)
        seen = judge(I, ck, 'Contract::from_str', outs, SRC, 'text')
        ck.cov['from_str_outcomes'] = {str(k): v for k, v in seen.items()}
        if not seen[PERR] and not any('from_str' in u for u in ck.undet):
            ck.bad('Contract::from_str', 'a syntax error is never reported')
    except Budget as e:
        ck.unknown('Contract::from_str', str(e))
    concrete_errors(m, ck)
    ana = set(I.analysed)
    ck.sample('Contract::from_str: %d outcomes' % len(outs))
    # a file
    I, outs, hit, PATH = of_file(C)
    try:
        if isinstance(outs, Budget):
            raise outs
        opened(I, ck, outs, PATH)
        if hit:
            judge_file(I, ck, outs)
        else:
            # the text is not handed to from_str: the same obligations for the content of the file
            judge(I, ck, 'Contract::parse', outs, FILE, 'content of the file')
        ck.sample('Contract::parse: %d outcomes' % len(outs))
    except Budget as e:
        ck.unknown('Contract::parse', str(e))
    ana |= set(I.analysed)
    display_error(m, ck)
    ck.cov['functions_analysed'] = sorted(x for x in ana if x.startswith(('crate', '<crate', '<core::result')))[:800]
    ck.cov['unmodelled_calls'] = sorted(I.unmodelled)


def of_file(C):
    """the outcomes of Contract::parse, the parsing of a text being a step of its own"""
    I = C.make()
    hit = []
    base = I.hooks[0]

    def sub(I, st, c, args, site):
        if (c['name'] == ENTRY or strip_generics(c['path']) == 'core::str::parse' and CONTRACT in str(c.get('targs'))) and args:
            hit.append(1)
            t = 'core::result::Result<%s, %s>' % (CONTRACT, ERR)
            s = ghost(st, 'sub', I.strip(st, args[0]))
            return [('ret', s, ('adt', t, 0, (('sym', ('contract',), CONTRACT),))), ('ret', s, ('adt', t, 1, (('sym', ('cerr',), ERR),)))]
        return base(I, st, c, args, site)
    I.hooks[0] = sub
    PATH = ('sym', ('path',), 'std::path::Path')
    try:
        return I, I.exec_fn(St({}), PARSE, [('ref', ('V', PATH), ())], 0, 0), hit, PATH
    except Budget as e:
        return I, e, hit, PATH


def other_files(m, ck):
    """C15: Contract::parse looks at no file but the given one, and only at its content"""
    C = Steps(m)
    I, outs, hit, PATH = of_file(C)
    where = 'Contract::parse'
    if isinstance(outs, Budget):
        ck.unknown(where, str(outs))
        return
    for o in outs:
        if o[0] == 'undet' or o[1].und:
            ck.unknown(where, str(o[2])[:300] if o[0] == 'undet' else o[1].und[0])
            continue
        for p in o[1].facts.get(('G', 'open'), ()):
            if p == PATH:
                ck.ok()
            elif has_top(p):
                ck.unknown(where, 'path not known')
            else:
                ck.bad(where, 'its result depends on another file: it reads %s' % value_name(I, p))
        for p, what in o[1].facts.get(('G', 'look'), ()):
            if what in ('modified', 'accessed', 'created', 'permissions', 'read_dir', 'read_link'):
                ck.bad(where, 'looks at more than the content of the file: %s' % what)
            elif p == PATH:
                ck.ok()
            elif has_top(p) or what == 'canonicalize':
                ck.unknown(where, 'path not known')
            else:
                ck.bad(where, 'its result depends on another file: %s of %s' % (what, value_name(I, p)))


def opened(I, ck, outs, PATH):
    for o in outs:
        if o[0] == 'undet' or o[1].und:
            continue
        op = o[1].facts.get(('G', 'open'), ())
        for p in op:
            if p == PATH:
                ck.ok()
            elif has_top(p):
                ck.unknown('Contract::parse', 'path not known')
            else:
                ck.bad('Contract::parse', 'reads %s instead of the given path' % value_name(I, p))
        if not op and o[0] == 'ret':
            if o[2][0] == 'adt' and not has_top(o[2]):
                ck.bad('Contract::parse', 'returns %s without reading the file' % value_name(I, o[2]))
            else:
                ck.unknown('Contract::parse', 'result not known')


def judge_file(I, ck, outs):
    where = 'Contract::parse'
    for o in outs:
        st = o[1]
        kind = outcome_kind(I, o)
        failed = st.facts.get(('G', 'failed'), ())
        subs = st.facts.get(('G', 'sub'), ())
        if kind[0] == 'undet' or st.und:
            # the whole result is handed on
            if o[0] == 'ret' and not st.und and o[2][0] == 'sym':
                ck.unknown(where, 'result not split')
            else:
                ck.unknown(where, str(kind[1] if kind[0] == 'undet' else st.und[0]))
            continue
        if kind[0] == 'panic':
            ck.bad(where, 'panics%s: %s' % (' when ' + HEADS[failed[0]] + ' occurs' if failed else '', panic_text(kind[1])))
            continue
        v = kind[1]
        for s in subs:
            if s == FILE:
                ck.ok()
            elif has_top(s):
                ck.unknown(where, 'parsed text not known')
            else:
                ck.bad(where, 'the text that is parsed is %s, not the content of the file' % value_name(I, s))
        if failed:
            h = failed[0]
            if kind[0] == 'ok':
                ck.bad(where, 'a contract is returned although a step failed: %s is lost' % HEADS[h])
            elif v[0] == 'adt' and v[1] == ERR:
                vn = variant_name(I, v)
                if vn != 'IoError':
                    ck.bad(where, '%s is reported as %s instead of IoError' % (HEADS[h], vn))
                elif h == IOERR and v[3][0] != ('sym', IOERR, 'core::io::error::Error') and not has_top(v):
                    ck.bad(where, 'the I/O error is not returned unchanged: %s' % value_name(I, v))
                else:
                    ck.ok()
            elif v == ('sym', ('cerr',), ERR):
                ck.bad(where, '%s is replaced by a parse error' % HEADS[h])
            else:
                ck.unknown(where, 'error not known')
            continue
        want = ('sym', ('contract',), CONTRACT) if kind[0] == 'ok' else ('sym', ('cerr',), ERR)
        if v == want:
            ck.ok()
        elif has_top(v) or mentions(v, ('fileh',)) or mentions(v, ('fbytes',)):
            ck.unknown(where, 'result not known')
        else:
            ck.bad(where, 'the result is %s, not the %s of parsing the content' % (value_name(I, v), 'contract' if kind[0] == 'ok' else 'error'))


if __name__ == '__main__':
    import build, time
    m, p, key = build.load()
    ck = common.Check('C14', 'x')
    t = time.time()
    check(m, p, ck)
    print(ck.obl, ck.disch, len(ck.undet), ck.undet[:8], len(ck.viol), ck.viol[:8], time.time() - t)
    print({k: v for k, v in ck.cov.items() if k != 'functions_analysed'}, ck.samples)
    if '-v' in __import__('sys').argv:
        C = Steps(m); I = C.make()
        for o in I.exec_fn(St({}), ENTRY, [SRC], 0, 0):
            if ('perr' in str(o[1].facts)): print(o[0], str(o[2])[:400], o[1].facts, o[1].und)
