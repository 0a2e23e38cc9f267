"""P22: no reported error is dropped."""
import re
from common import *

ITER = 'core::iter::traits::iterator::Iterator'
# iterators of other crates over results
FAILING = ('walkdir::IntoIter', 'std::fs::ReadDir', 'std::io::Lines', 'std::io::Bytes', 'std::io::Split')
CRATES = ('hcl', 'hcl_edit', 'hcl_primitives', 'hcl2json')
STDERR = 'core::fmt::Error'


def is_error(F, t):
    """Errors, as opposed to values which are handed back."""
    if t[0] != 'adt':
        return t[0] in ('param', 'alias')
    n = t[1].split('::')[-1]
    return n.endswith(('Error', 'Errors')) or n == 'ErrMode' or n == 'ParseError' or n == 'Box'


def mentions(x, l):
    """Whether a place of the local occurs."""
    if isinstance(x, dict):
        return any(mentions(v, l) for k, v in x.items() if k != 'args')
    if isinstance(x, (list, tuple)):
        if x and type(x[0]) is int and x[0] == l:
            return True
        return any(mentions(y, l) for y in x)
    return False


def used(f, l, bi):
    """Whether the local which the call of block bi defines is read or moved."""
    for bj, b in enumerate(f['blocks']):
        if any(s[0] == '=' and (mentions(s[2], l) or s[1][0] == l and len(s[1]) > 1) or s[0] not in ('=', 'live', 'dead') and mentions(s, l) for s in b['s']):
            return True
        t = b['t']
        if t[0] == 'drop':
            continue
        if t[0] == 'call':
            if t[1].get('path', '').endswith('mem::drop') if isinstance(t[1], dict) else False:
                continue
            if mentions(t[2], l) or isinstance(t[1], dict) and mentions({k: v for k, v in t[1].items() if k not in ('args', 'res')}, l):
                return True
        elif mentions(t[1:], l):
            return True
    return False


def receiver(f, op):
    """The type an operand borrows."""
    if op[0] not in ('m', 'c') or len(op[1]) != 1:
        return None
    t = f['lty'][op[1][0]]
    while t and t[0] == 'ref':
        t = t[2]
    return t


def forgets(F, g):
    """Whether a closure gives what is left of a result without its error."""
    f = F.fns.get(g)
    for b in f['blocks'] if f else ():
        t = b['t']
        if not b['c'] and t[0] == 'call' and t[1].get('path', '').startswith('std::result::Result::') and t[1]['path'].endswith('::ok') and t[3] == [0]:
            o = t[2][0]
            r = f['lty'][o[1][0]] if o[0] in ('m', 'c') and len(o[1]) == 1 else None
            if r and r[0] == 'adt' and r[1] == RES and is_error(F, r[2][1]):
                return True
    return False


def run(rep):
    F = load('perf')
    rep.rule('The result of every operation that may fail is looked at or passed on: never dropped as it is, nor after turning its error into nothing, nor replaced '
             'by a default, nor skipped among others.')
    for g, f in sorted(F.fns.items()):
        if f['crate'] not in CRATES or '::tests::' in g:
            continue
        rep.count('functions')
        for bi, b in enumerate(f['blocks']):
            t = b['t']
            if b['c'] or t[0] != 'call' or 'path' not in t[1]:
                continue
            p, n = t[1]['path'], t[1]['path'].split('::')[-1]
            key = lambda k: '%s:%s:%s' % (k, re.sub(r'(::\{closure#\d+\})+$', '', f['path']), n)
            d = t[3]
            ty = f['lty'][d[0]] if isinstance(d, list) and len(d) == 1 else None
            args = [f['lty'][o[1][0]] if o[0] in ('m', 'c') and len(o[1]) == 1 else None for o in t[2]]
            res = ty if ty and ty[0] == 'adt' and ty[1] == RES and is_error(F, ty[2][1]) else None
            if res:
                rep.count('fallible calls')
            if res and d[0] != 0:
                text = res[2][1] == ('adt', STDERR, ()) and t[2] and (receiver(f, t[2][0]) or ('',))[0] == 'adt' and receiver(f, t[2][0])[1] == 'alloc::string::String'
                # writing to a string cannot fail; simplifying a document is documented to keep what it cannot evaluate
                fine = text or f['crate'] == 'hcl2json' and n == 'evaluate_in_place'
                rep.oblige(fine or used(f, d[0], bi), key('dropped'), '%s drops the result of %s' % (f['path'], p), [f['path'], p])
            r = args[0] if args else None
            if r and r[0] == 'adt' and r[1] == RES and is_error(F, r[2][1]):
                if n in ('ok', 'err', 'is_ok', 'is_err', 'iter', 'into_iter') and 'Result' in p and d and d[0] != 0 and len(d) == 1:
                    rep.oblige(used(f, d[0], bi), key('dropped'), '%s drops the error of a result turned into nothing by %s' % (f['path'], n), [f['path'], p])
                if n in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'is_ok_and') and not p.startswith('winnow') and r[2][1][0] == 'adt' and \
                        r[2][1][1].split('::')[0] in ('hcl', 'hcl_edit', 'hcl_primitives', 'std', 'anyhow', 'serde_json') and not r[2][1][1].startswith('core::'):
                    rep.oblige(False, 'default:%s' % ('Template' if r[2][0][0] == 'adt' and r[2][0][1] == 'hcl_edit::template::Template' else f['path']),
                               '%s replaces the error of a result by a default' % f['path'], [f['path'], p])
            # skipping failed items
            if p.endswith(('Iterator::flatten', 'Iterator::flat_map', 'Iterator::filter_map', 'Iterator::map_while', 'Iterator::flatten_iter')):
                fs = [f['T'][o[1]['t']] for o in t[2] if o[0] == 'k' and isinstance(o[1], dict) and isinstance(o[1].get('t'), int)] + [a for a in args if a and a[0] == 'closure']
                skip = any(x[0] == 'fndef' and x[3].startswith('std::result::Result::') and x[3].endswith('::ok') and is_error(F, x[2][1]) or x[0] == 'closure' and forgets(F, x[1])
                           for x in fs)
                it = args[0]
                if n == 'flatten' and it:
                    item = F.normalize(('alias', ITER + '::Item', (it,)))
                    skip = item[0] == 'adt' and item[1] == RES and is_error(F, item[2][1]) or it[0] == 'adt' and it[1] in FAILING
                rep.oblige(not skip, key('skipped'), '%s skips the items that failed' % f['path'], [f['path'], p])
    rep.floor('functions', 1500)
    rep.floor('fallible calls', 800)
