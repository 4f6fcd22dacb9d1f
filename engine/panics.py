"""C01: no panic, whatever the text.  Collects the panic outcomes of all the analyses that interpret a part of the way from
text to contract, and accounts for every function on that way that contains a construct that can panic."""
import lexer, grammar, emitter, typeprint, contract, printing, visitor, purity
from common import Check
from emitter import Anchor

PARTS = [
    ('conversion of syntax trees', 'C02', emitter.check_c02),
    ('conversion of types', 'C03', emitter.check_c03),
    ('printing of types', 'C04', typeprint.check),
    ('parsing as a whole', 'C14', contract.check),
    ('printing of names', 'C18', printing.check_names),
    ('traversal', 'C08', lambda m, p, ck: visitor.check(m, 'C08', ck)),
    ('grammar actions', 'panic', grammar.check('panic')),
]
WORDS = ('panic', 'aborts', 'does not terminate')
SITES = ('core::panicking::', 'std::rt::begin_panic', 'core::option::unwrap_failed', 'core::result::unwrap_failed', 'core::option::expect_failed', 'core::str::slice_error_fail', 'core::slice::index')
METHODS = {'unwrap', 'expect', 'unwrap_err', 'expect_err', 'index', 'index_mut', 'split_at', 'split_at_mut', 'remove', 'swap_remove', 'insert', 'drain', 'split_off', 'borrow_mut', 'borrow',
           'copy_from_slice', 'swap', 'chunks', 'windows', 'step_by', 'replace_range', 'insert_str', 'from_digit', 'to_digit', 'pow', 'div_euclid', 'rem_euclid', 'abs', 'unreachable'}
ENTRIES = ('<crate::contract::Contract as core::str::traits::FromStr>::from_str', 'crate::contract::Contract::parse')


def sites(f):
    """constructs of a body that can panic"""
    n = []
    for b in f['body']['blocks']:
        if b is None or b.get('cleanup'):
            continue
        t = b['t']
        if t[0] == 'assert':
            n.append('check')
        elif t[0] == 'call':
            for c in purity.calls([t]):
                p, last = c['path'], c['path'].rsplit('::', 1)[-1]
                if p.startswith(SITES) or (last in METHODS and not c['path'].startswith(('std::collections', 'alloc::collections'))):
                    n.append(last)
    return n


def check(m, prods, ck):
    ana = set()
    res = lexer.analyse(m, ck.tier)
    lexer.report(ck, res, {'panic'})
    ana |= res['ana']
    for name, pid, fn in PARTS:
        sub = Check(pid, '')
        sub.tier = ck.tier
        try:
            fn(m, prods, sub)
        except Anchor as e:
            ck.unknown(name, str(e))
            continue
        n = 0
        for c, msg in sub.viol:
            if any(w in msg for w in WORDS) and not msg.startswith(('the I/O error', 'the error about invalid UTF-8')):
                ck.bad(c, msg)
                n += 1
        ck.ok(max(sub.disch, 1))
        for u in sub.undet[:20]:
            ck.unknown(name, u)
        ana |= set(sub.cov.get('functions_analysed', ()))
        ck.cov.setdefault('obligations_per_part', {})[name] = sub.obl
    # every function on the way that could panic has been looked at
    G = purity.Graph(m)
    f = m['funcs']
    roots = {n for n in f if n in ENTRIES or (f[n].get('local') and (n.endswith('as core::fmt::Display>::fmt') or n.startswith('crate::parser::parser::__action')))}
    reach = G.reach(roots) | {n for n in f if 'parser::lexer::Lexer' in n and n.endswith(('::new', '::next'))}
    capable, left = 0, []
    names = {purity.short(x) for x in ana} | ana
    for n in sorted(reach):
        if not f[n].get('local') or f[n].get('derived') or not f[n].get('body'):
            continue
        s = sites(f[n])
        if s:
            capable += 1
            if n in ana or purity.short(n) in names:
                ck.ok()
            else:
                left.append('%s (%s)' % (purity.short(n), ', '.join(sorted(set(s)))))
    for x in left[:60]:
        ck.unknown('not analysed', x)
    ck.cov['functions_on_the_way'] = len(reach)
    ck.cov['functions_that_can_panic'] = capable
    ck.cov['not_analysed'] = left[:60]
    ck.cov['functions_analysed'] = sorted(x for x in ana if 'crate' in x)[:600]
    ck.sample('%d functions contain a construct that can panic; %d of them analysed' % (capable, capable - len(left)))
