"""P11: identifiers are valid wherever they come from."""
import itertools
import re
from p_de import *

NAMES = ('Ident', 'Identifier', 'Variable')
TEXTS = {('prim', 'str'): 'str', 'alloc::string::String': 'String', 'InternalString': 'InternalString', 'alloc::borrow::Cow': 'Cow'}


def start(c):
    return c.isidentifier()


def more(c):
    return c == '-' or ('a' + c).isidentifier()


def valid(s):
    return s != '' and start(s[0]) and all(map(more, s[1:]))


def sanitized(s):
    """Every character which may stand where it does is kept, a leading one which may only follow gets a prefix, others are replaced."""
    if not s:
        return '_'
    return ''.join(c if i == 0 and start(c) or i and more(c) else '_' + c if more(c) else '_' for i, c in enumerate(s))


def kind(F, t):
    """The identifier type a result holds, and whether it may be an error."""
    fail = None
    while t[0] == 'adt' and t[1] in (RES, OPT):
        fail = t[1]
        t = t[2][0]
    if t[0] == 'adt' and t[1].split('::')[-1] in NAMES and F.adts.get(t[1], {}).get('crate') in ('hcl', 'hcl_primitives'):
        return t[1], fail
    return None


def txt(t):
    while t[0] == 'ref':
        t = t[2]
    if t == ('prim', 'str') or t[0] == 'param':
        return True
    return t[0] == 'adt' and t[1].split('::')[-1] in ('String', 'InternalString', 'Cow')


def words():
    """All texts of up to three characters of every class, and some longer ones."""
    for k in range(4):
        for t in itertools.product('a_-1 $\u00e9\u0301', repeat=k):
            yield ''.join(t)
    for s in ('a"b', 'a.b', 'a\nb', 'for', 'null', 'aaaaaaaaaa', 'a-------1', '1aaaaaaaa', 'aaaaaaaa$', '-_-_-_-_', '%{a}', '${a}', 'a\x00', '\u4e2d\u6587', '\u2028', 'A', 'Z9', '9Z', '/'):
        yield s


def run(rep):
    F = load(serde=True)
    cx = DeCtx(F, rep)
    rep.rule('Whatever makes an identifier from a text gives one with that text when the text is a valid identifier; otherwise it fails or, where it is '
             'to sanitize, gives a valid one in which the valid characters are kept.')
    rep.rule('An identifier is made without a check only by the functions which say so, by the parser from what its grammar matched, and where its text '
             'is taken out again at once.')
    STRING = ('adt', 'alloc::string::String', ())
    makers = {}
    for g, f in sorted(F.fns.items()):
        t = f.get('lty')
        if f['crate'] not in ('hcl', 'hcl_primitives') or not t or '{closure' in g or '::tests::' in g or g.endswith('deserialize'):
            continue
        k = kind(F, t[0])
        if not k:
            continue
        n = f['argc']
        nm = g.split('::')[-1]
        if n == 1 and txt(t[1]) and not (nm in ('unchecked', 'new_unchecked')):
            makers[g] = (k, None)
        elif n == 2 and nm.startswith('serialize_') and (t[2] == ('prim', 'char') or txt(t[2]) and nm == 'serialize_str'):
            makers[g] = (k, t[1])
    for g, (k, recv) in makers.items():
        rep.count('constructors')
        f = F.fns[g]
        char = f['argc'] == 2 and f['lty'][2] == ('prim', 'char')
        seen = set()
        for s in words():
            if char and len(s) != 1:
                continue
            p = f['lty'][f['argc']]
            sub = {x[1]: STRING for x in (p, p[2] if p[0] == 'ref' else p) if x[0] == 'param'}
            key = 'make:%s' % F.fns[g]['path'].replace('::<', '<')
            xs = []
            try:
                for arg in [cchar(s)] if char else given(F, p, s):
                    args = [arg] if recv is None else [('sym', 'recv'), arg]
                    ys, E = cx.run(g, None, sub, args=lambda E: args, hooks=DeH)
                    xs += ys
                    rep.oblige(bool(ys) or not valid(s), key + ':paths', '%s of the identifier %r gives no result' % (f['path'], s))
            except Limit as e:
                rep.oblige(False, key, '%s of %r: %s' % (f['path'], s, e))
                break
            rep.count('texts')
            for st, v in xs:
                x = v
                isok = True
                while x[0] == 'agg' and x[1] == 'adt' and x[2] in (RES, OPT):
                    if x[2] == RES and x[3] == 1 or x[2] == OPT and not x[4]:
                        isok = False
                        break
                    x = x[4][0]
                got = name(E.full(st, x)) if isok else None
                rep.oblige(not isok or got is not None, key + ':text', '%s of %r has an unknown text %s' % (f['path'], s, str(E.full(st, x))[:300]))
                if not isok or got is None:
                    rep.oblige(isok or not valid(s), key + ':refused', '%s refuses the identifier %r' % (f['path'], s))
                    continue
                rep.oblige(valid(got), key + ':invalid', '%s makes the invalid identifier %r of %r' % (f['path'], got, s))
                want = s if valid(s) else sanitized(s) if k[1] is None else None
                rep.oblige(got == want, key + ':changed', '%s makes %r of %r and not %r' % (f['path'], got, s, want))
    rep.floor('constructors', 12)
    rep.floor('texts', 3000)
    unchecked(rep, F, makers)


def given(F, t, s):
    """The values of the type with the text."""
    if t[0] == 'adt' and t[1].endswith('::Cow'):
        return [('agg', 'adt', t[1], i, (cstr(s),)) for i in (0, 1)]
    a = F.adts.get(t[1]) if t[0] == 'adt' else None
    if a and len(a['variants']) == 1 and len(a['variants'][0]['fields']) == 1:
        f = a['variants'][0]['fields'][0]
        return [struct(F, a, **{f['name']: x}) for x in given(F, f['ty'], s)]
    return [cstr(s)]


def unchecked(rep, F, makers):
    """The callers of what makes identifiers without a check."""
    def ends(g, f):
        k = kind(F, f['lty'][0]) if f.get('lty') else None
        return k and k[1] is None and g.split('::')[-1].endswith('unchecked')
    base = {g for g, f in F.fns.items() if f['crate'] in ('hcl', 'hcl_primitives', 'hcl_edit') and ends(g, f)}
    rep.oblige(bool(base), 'anchor:unchecked', 'no unchecked constructor of identifiers was found (anchor)')
    inner = {a['id'] for a in F.adts.values() if a['crate'] in ('hcl', 'hcl_primitives') and a['id'].split('::')[-1] in NAMES}
    for g, f in sorted(F.fns.items()):
        if f['crate'] not in ('hcl', 'hcl_primitives', 'hcl_edit', 'hcl2json') or '::tests::' in g:
            continue
        for b in f['blocks']:
            t = b['t']
            used = t[0] == 'call' and (t[1].get('id') in base or (t[1].get('res') or {}).get('id') in base)
            if not used:
                continue
            rep.count('unchecked calls')
            owner = re.sub(r'(::\{closure#\d+\})+$', '', g)
            good = owner in base or owner in makers or g.startswith(('hcl_primitives::ident::', 'hcl::ident::')) or g.startswith('hcl_edit::parser::') or g.startswith('hcl::structure::json_spec::')
            rep.oblige(good, 'unchecked:' + f['path'], '%s makes an identifier without a check' % f['path'], [f['path']])
    rep.floor('unchecked calls', 5)


def name(x):
    n = 0
    while x[0] == 'agg' and x[1] == 'adt' and len(x[4]) == 1 and n < 8:
        x = x[4][0]
        n += 1
    if x[0] == 'const' and x[1] == 'str':
        return x[2]
    if x[0] == 'toks':
        c = ''.join(t[1] for t in x[1] if t[0] == 'lit')
        return c if all(t[0] == 'lit' for t in x[1]) else None
    return None
