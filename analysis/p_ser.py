"""P18: serialization keeps every part of the data: every kind of the data model, to values, expressions and bodies."""
import itertools
from p_eval import *
from p_fmt import FMT, EntryH, FmtH
from text import Text

DM = 'harness::ser::Dm'
SER = 'serde_core::ser::Serializer'
SERIALIZE = 'serde_core::ser::Serialize'

class SerH(FmtH):
    drops = True
    max_inline = 60
    max_rec = 10

    def harness(self, E, st, name, args, c, **sub):
        fid = 'harness::ser::' + name
        return E.enter(st, fid, sorted(sub.items()), args, c.ret, c.line)

    def display(self, E, st, x, ty, dst, ret):
        if (ty and E.strip(ty) == ('adt', EXP, ())) or x[1:3] == ('adt', EXP):
            return None                       # only inside of messages
        return FmtH.display(self, E, st, x, ty, dst, ret)

    def ucall(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        R = lambda v: E.resume(st, c.ret, v)
        if np == 'thread::LocalKey::with':
            t = E.strip(c.targs[0])
            k = 'flag' if t[0] == 'adt' and '::sync::atomic::' in t[1] else None
            if k is None and t[0] == 'adt' and t[1].split('::')[-1] == 'InternalHandles':
                k = 'handles:' + E.F.tstr(t[2][0])
            if k is None or ('tls', k) not in st.env:
                return None
            return E.invoke(st, a[1], [('slot', 'tls', k, ())], c.ret, c.line, c.site)
        if np.startswith('sync::atomic::'):
            if n == 'load':
                return R(E.deref(st, a[0]))
            if n == 'store':
                E.store(st, a[0], E.full(st, a[1]))
                return R(UNIT)
            if n == 'swap':
                v = E.deref(st, a[0])
                E.store(st, a[0], E.full(st, a[1]))
                return R(v)
            if n == 'fetch_add':
                v = E.deref(st, a[0])
                if v[0] == 'const':
                    E.store(st, a[0], cint(v[2] + 1))
                    return R(v)
        if n == 'new_sanitized' and c.id.split('::')[0] == 'hcl_primitives':
            x = E.full(st, a[0])
            while x[0] == 'agg' and x[1] == 'adt' and len(x[4]) == 1:
                x = x[4][0]
            if x[0] == 'const' and isident(x[2]):
                t = E.F.fns[c.id]['lty'][0]
                return R(('agg', 'adt', t[1], 0, (x,)))
        if np == 'mem::drop' and c.targs and c.targs[0][0] == 'adt':
            hit = E.F.find_impl('core::ops::drop::Drop', c.targs[0])
            if hit:
                k = self.tmp(st)
                st.env[k] = E.full(st, a[0])
                return E.enter(st, hit[0]['items'][0]['id'], sorted(hit[1].items()), [('slot',) + k + ((),)], ('k', 'text_unit', None, c.ret), c.line)
        if np == 'clone::Clone::clone' and E.deref(st, a[0])[0] == 'sym':
            return R(E.deref(st, a[0]))
        if n == 'new' and np.startswith('collections::'):
            return R(arr(()))
        if n == 'new' and (np.startswith('sync::atomic::') or 'RefCell' in np):
            return R(a[0])
        if n in ('borrow_mut', 'borrow', 'try_borrow_mut') and 'RefCell' in np and a[0][0] == 'slot':
            return R(a[0])
        if n == 'collect_str' and c.trait == SER and E.target(st, c) is None:
            return self.harness(E, st, 'display', [a[0], a[1]], c, S=c.targs[0], T=c.targs[1])
        if n == 'serialize_entry' and E.target(st, c) is None:
            return self.harness(E, st, 'entry', list(a), c, M=c.targs[0], K=c.targs[1], V=c.targs[2])
        if c.trait == SERIALIZE and n == 'serialize':
            x = E.deref(st, a[0])
            t = c.targs[0]
            while t[0] == 'ref' or t[0] == 'adt' and t[1].split('::')[-1] == 'Box':
                t = t[2] if t[0] == 'ref' else t[2][0]
            s = c.targs[1]
            if x[0] == 'sym' and s[0] == 'adt' and t == ('adt', DM, ()):
                r = self.leaf(E, st, c, x, s)
                if r is not None:
                    return r
            if x[0] == 'agg' and x[1] == 'adt' and x[2] not in ('harness::ser::Dm', 'core::option::Option') and t == ('adt', DM, ()):
                t = ('adt', x[2], (t,) if E.F.adts[x[2]]['generics'] else ())
                return self.callto(E, st, c.id, np, c.trait, (t,) + tuple(c.targs[1:]), list(a), c.ret)
            prim = {('prim', 'str'): 'str', ('prim', 'bool'): 'bool', ('prim', 'usize'): 'u64'}.get(t) or \
                (t[1] if t[0] == 'prim' else 'str' if t[0] == 'adt' and t[1].split('::')[-1] in ('String', 'InternalString') else None)
            if prim and E.target(st, c) is None:
                return self.callto(E, st, SER + '::serialize_' + prim, 'ser::Serializer::serialize_' + prim, SER, (s,), [a[1], x], c.ret)
            if t[0] == 'adt' and t[1].split('::')[-1] in ('Vec',):
                return self.harness(E, st, 'vec', [x, a[1]], c, S=s, T=t[2][0])
            if t[0] == 'adt' and t[1].split('::')[-1] in MAPT:
                return self.harness(E, st, 'map', [x, a[1]], c, S=s, K=t[2][0], V=t[2][1])
            if t != c.targs[0]:
                return self.callto(E, st, c.id, np, c.trait, (t,) + tuple(c.targs[1:]), [x, a[1]], c.ret)
        # numbers
        t = c.targs[0] if c.targs else None
        if np in ('convert::From::from', 'convert::Into::into') and len(c.targs) > 1:
            to = c.targs[0] if n == 'from' else c.targs[1]
            if to[0] == 'adt' and to[1].startswith('hcl_primitives::') and to[1].endswith('::Number'):
                return R(('agg', 'num', None, None, (E.full(st, a[0]),)))
        if n == 'from_f64' and c.id.startswith('hcl_primitives::number::'):
            s = st.copy()
            s.mon = s.mon + (('finite', False),)
            st.mon = st.mon + (('finite', True),)
            return R(some(('agg', 'num', None, None, (E.full(st, a[0]),)))) + E.resume(s, c.ret, NONE)
        return FmtH.ucall(self, E, st, c)

    def leaf(self, E, st, c, x, s):
        """What a child of unknown kind gives: decided by what its serializer makes."""
        name = x[1]
        t = E.F.normalize(('alias', SER + '::Ok', (s,)))
        k = t[1].split('::')[-1] if t[0] == 'adt' else None
        W = lambda k: ('agg', 'got', k, None, (x,))
        v = {'Value': lambda: W('value'), 'Expression': lambda: W('expr'), 'String': lambda: ('toks', (('val', W('key')),)),
             'Identifier': lambda: W('key'), 'ObjectKey': lambda: W('key'),
             'Body': lambda: ('agg', 'adt', t[1], 0, (arr((W('body1'), W('body2'))),))}.get(k)
        o = st.copy()
        o.mon = o.mon + (('failed', name),)
        if v is None:
            return E.resume(o, c.ret, err(('sym', 'err:' + name)))
        return E.resume(st, c.ret, ok(v())) + E.resume(o, c.ret, err(('sym', 'err:' + name)))


class Skip(Exception):
    """The specification leaves this open."""


class Spec:
    """What the serialization of a value must give, written from the data model alone."""
    def __init__(self, failed, finite):
        self.failed, self.finite = failed, list(finite)

    def leaf(self, d, k):
        if d[1] in self.failed:
            raise Fail(('sym', 'err:' + d[1]))
        return ('agg', 'got', k, None, (('sym', d[1]),))

    # keys: text, or what the key serializer made of an unknown key
    def key(self, d, ident=False, ints=False):
        k = d[0]
        if k == 'leaf':
            return self.leaf(d, 'key')
        if k in ('some', 'ns'):
            return self.key(d[-1], ident, ints)
        if k in ('char', 'str', 'text', 'uvar'):
            if ident and not isident(d[1]):
                raise Fail()
            return ('text', d[1])
        if ints and k in INTS:
            return ('int', d[1])
        raise Fail()

    # values and expressions
    def val(self, d, m):
        """m: 'value' or 'expr'."""
        k = d[0]
        g = lambda x: self.val(x, m)
        K = lambda x: self.key(x, ints=m == 'expr')
        if k == 'leaf':
            return self.leaf(d, m)
        if k == 'ex':
            return self.own[d[1]]['val']
        if k == 'st':
            raise Skip()                      # how a structure looks as an expression is not specified
        if k in ('none', 'unit', 'ustruct'):
            return ('Null',)
        if k == 'bool':
            return ('Bool', d[1])
        if k in INTS:
            return ('Number', d[1])
        if k in ('f32', 'f64'):
            return ('Number', ('sym', 'f')) if not self.finite or self.finite.pop(0) else ('Null',)
        if k in ('char', 'str', 'text', 'uvar'):
            return ('String', ('text', d[1]))
        if k == 'bytes':
            return ('Array', tuple(('Number', b) for b in d[1]))
        if k in ('some', 'ns', 'mark', 'marklab'):
            return g(d[-1])
        if k in ('seq', 'tuple', 'ts'):
            return ('Array', tuple(g(x) for x in d[1]))
        if k == 'nv':
            if m == 'expr' and not isident(d[1]):
                raise Skip()                  # a name that is no identifier may be refused as a key
            return ('Object', ((('text', d[1]), g(d[2])),))
        if k == 'tv':
            return ('Object', ((('text', d[1]), ('Array', tuple(g(x) for x in d[2]))),))
        if k in ('map', 'entries'):
            return self.obj([(K(a), g(b)) for a, b in d[1]])
        if k == 'struct':
            return self.obj([(('text', a), g(b)) for a, b in d[2]])
        if k == 'sv':
            return ('Object', ((('text', d[1]), self.obj([(('text', a), g(b)) for a, b in d[2]])),))
        raise KeyError(k)

    def obj(self, kvs):
        o = {}
        for k, v in kvs:
            o[k] = v
        return ('Object', tuple(o.items()))

    # structures
    def ident(self, s):
        if not isident(s):
            raise Fail()
        return ('text', s)

    def body(self, d):
        k = d[0]
        if k == 'leaf':
            return (self.leaf(d, 'body1'), self.leaf(d, 'body2'))
        if k in ('ex', 'st'):
            b = self.own[d[1]]['body']
            if b is None:
                raise Fail()
            return b
        if k in ('some', 'ns', 'mark', 'marklab'):
            return self.body(d[-1])
        if k in ('seq', 'tuple', 'ts'):
            return sum((self.body(x) for x in d[1]), ())
        if k == 'nv':
            return self.struct(self.ident(d[1]), d[2])
        if k == 'tv':
            return (('Attribute', self.ident(d[1]), self.val(('seq', d[2]), 'expr')),)
        if k in ('map', 'entries', 'struct'):
            return self.fields(d)
        if k == 'sv':
            return (('Block', self.ident(d[1]), (), self.fields(d)),)
        raise Fail()

    def fields(self, d):
        out = ()
        for a, b in d[-1]:
            a = self.key(a, ident=True) if d[0] in ('map', 'entries') else self.ident(a)
            out += self.struct(a, b)
        return out

    def struct(self, i, d):
        if d[0] == 'leaf':
            raise Fail(('sym', 'err:' + d[1]))
        if d[0] == 'some':
            return self.struct(i, d[1])
        if d[0] == 'mark':
            return self.block(i, d[1])
        if d[0] == 'marklab':
            return self.labeled(i, d[1])
        return (('Attribute', i, self.val(d, 'expr')),)

    def block(self, i, d):
        k = d[0]
        if k == 'leaf':
            raise Fail(('sym', 'err:' + d[1]))
        if k in ('ex', 'st'):
            b = self.own[d[1]]['body']
            if b is None:
                raise Fail()
            return (('Block', i, (), b),)
        if k in ('some', 'ns', 'mark'):
            return self.block(i, d[-1])
        if k == 'marklab':
            return self.labeled(i, d[-1])
        if k in ('seq', 'tuple', 'ts'):
            return sum((self.block(i, x) for x in d[1]), ())
        if k == 'nv':
            return (('Block', i, (), self.struct(self.ident(d[1]), d[2])),)
        if k == 'tv':
            v = self.ident(d[1])
            return (('Block', i, (), sum((self.block(v, x) for x in d[2]), ())),)
        if k in ('map', 'entries', 'struct'):
            return (('Block', i, (), self.fields(d)),)
        if k == 'sv':
            return (('Block', i, (), (('Block', self.ident(d[1]), (), self.fields(d)),)),)
        raise Fail()

    def labeled(self, i, d):
        k = d[0]
        if k == 'leaf':
            raise Fail(('sym', 'err:' + d[1]))
        if k in ('ex', 'st'):
            raise Skip()
        lab = lambda bs, *ls: tuple(b[:2] + (tuple(ls) + b[2],) + b[3:] for b in bs)
        if k in ('some', 'ns', 'mark', 'marklab'):
            return self.labeled(i, d[-1])
        if k in ('seq', 'tuple', 'ts'):
            return sum((self.labeled(i, x) for x in d[1]), ())
        if k == 'nv':
            return lab(self.block(i, d[2]), ('text', d[1]))
        if k == 'tv':
            return sum((lab(self.block(i, x), ('text', d[1])) for x in d[2]), ())
        if k in ('map', 'entries', 'struct'):
            out = ()
            for a, b in d[-1]:
                a = self.key(a) if k != 'struct' else ('text', a)
                out += lab(self.block(i, b), a)
            return out
        if k == 'sv':
            return sum((lab(self.block(i, b), ('text', d[1]), ('text', a)) for a, b in d[2]), ())
        raise Fail()


INTS = ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64')


def isident(s):
    return s.replace('-', '_').isidentifier() and not s.startswith(('_', '-'))


class Terms:
    """Values of the data model as terms of the analysis."""
    def __init__(self, F):
        self.F, self.a = F, F.adts[DM]

    def __call__(self, d):
        k, g = d[0], self
        v = lambda n, *f: variant(self.F, self.a, n, *f)
        pairs = lambda xs: arr(tuple(tup(g(a) if isinstance(a, tuple) else cstr(a), g(b)) for a, b in xs))
        if k == 'leaf':
            return ('sym', d[1])
        if k in ('ex', 'st'):
            return self.own[d[1]]['term']
        if k == 'bool':
            return v('Bool', cbool(d[1]))
        if k in INTS:
            return v(k.upper(), cint(d[1]))
        if k in ('f32', 'f64'):
            return v(k.upper(), ('sym', 'f'))
        if k == 'char':
            return v('Char', cchar(d[1]))
        if k == 'str':
            return v('Str', cstr(d[1]))
        if k == 'text':
            return v('Text', cstr(d[1]))
        if k == 'bytes':
            return v('Bytes', arr(tuple(map(cint, d[1]))))
        if k in ('none', 'unit'):
            return v(k.capitalize())
        if k == 'ustruct':
            return v('UnitStruct', cstr('S'))
        if k == 'uvar':
            return v('UnitVariant', cstr(d[1]))
        if k == 'some':
            return v('Some', g(d[1]))
        if k == 'ns':
            return v('NewtypeStruct', cstr('N'), g(d[1]))
        if k == 'nv':
            return v('NewtypeVariant', cstr(d[1]), g(d[2]))
        if k in ('mark', 'marklab'):
            return ('agg', 'adt', 'hcl::ser::blocks::' + ('Block' if k == 'mark' else 'LabeledBlock'), 0, (g(d[1]),))
        n = {'seq': 'Seq', 'tuple': 'Tuple', 'ts': 'TupleStruct'}.get(k)
        if n:
            return v(n, arr(tuple(map(g, d[1]))))
        if k == 'tv':
            return v('TupleVariant', cstr(d[1]), arr(tuple(map(g, d[2]))))
        if k in ('map', 'entries'):
            return v(k.capitalize(), pairs(d[1]))
        if k == 'struct':
            return v('Struct', cstr(d[1]), pairs(d[2]))
        if k == 'sv':
            return v('StructVariant', cstr(d[1]), pairs(d[2]))
        raise KeyError(k)


class Read:
    """What was made, in the words of the specification."""
    def __init__(self, F):
        self.F = F

    def text(self, x):
        while x[0] == 'agg' and x[1] == 'adt' and len(x[4]) == 1:
            x = x[4][0]
        if x[0] == 'const' and x[1] in ('str', 'char'):
            return ('text', x[2])
        if x[0] == 'toks':
            if len(x[1]) == 1 and x[1][0][0] == 'val':
                return self.text(x[1][0][1])
            if all(t[0] == 'lit' for t in x[1]):
                return ('text', ''.join(t[1] for t in x[1]))
        return x

    def num(self, x):
        if x[0] == 'agg' and x[1] == 'num':
            y = x[4][0]
            while y[0] == 'op' and y[1] == 'cast':
                y = y[-1]
            return y[2] if y[0] == 'const' else y
        return x

    def key(self, x):
        if x[0] == 'agg' and x[1] == 'adt':
            n = self.F.vname(x[2], x[3]) if self.F.nvariants(x[2]) > 1 else None
            if n in ('Number',):
                y = self.num(x[4][0])
                return ('int', y)
            if n in ('Identifier', 'Expression', 'String'):
                return self.key(x[4][0])
        return self.text(x)

    def val(self, x):
        if x[0] != 'agg' or x[1] != 'adt':
            return x
        n = self.F.vname(x[2], x[3])
        if n == 'Null':
            return (n,)
        y = x[4][0] if x[4] else None
        if n == 'Bool':
            return (n, y[2] if y[0] == 'const' else y)
        if n == 'Number':
            return (n, self.num(y))
        if n == 'String':
            return (n, self.text(y))
        if n == 'Array' and isarr(y):
            return (n, tuple(map(self.val, y[4])))
        if n == 'Object' and isarr(y):
            return (n, tuple((self.key(p[4][0]), self.val(p[4][1])) for p in y[4]))
        return x

    def body(self, x):
        if x[0] == 'agg' and x[1] == 'adt' and x[2].endswith('::Body') and isarr(x[4][0]):
            return tuple(map(self.struct, x[4][0][4]))
        return x

    def struct(self, x):
        if x[0] != 'agg' or x[1] != 'adt':
            return x
        y = x[4][0]
        n = self.F.vname(x[2], x[3])
        f = {q['name']: v for q, v in zip(self.F.adt(y[2])['variants'][0]['fields'], y[4])}
        if n == 'Attribute':
            return (n, self.text(f['key']), self.val(f['expr']))
        ls = f['labels']
        return (n, self.text(f['identifier']), tuple(self.text(l[4][0]) if l[0] == 'agg' else l for l in ls[4]) if isarr(ls) else ls, self.body(f['body']))


def handle(x):
    if isinstance(x, tuple):
        return x[:1] == ('const',) and x[-1] == 'handle' or any(handle(y) for y in x)
    return False


def handlekey(d, m):
    """Where the library's own data stands whose handle leaked."""
    found = []

    def go(d, block, expr):
        k = d[0]
        if k in ('ex', 'st'):
            found.append('handle:%s:%s' % (k, 'block' if block else 'expression' if expr else 'body'))
        elif k in ('mark', 'marklab'):
            go(d[1], not expr, expr)
        elif k in ('some', 'ns'):
            go(d[-1], block, expr)
        elif k in ('seq', 'tuple', 'ts'):
            for x in d[1]:
                go(x, block, expr)
        elif k in ('nv', 'tv'):
            for x in [d[2]] if k == 'nv' else d[2]:
                go(x, False, True)
        elif k in ('map', 'entries', 'struct', 'sv'):
            for _, x in d[-1]:
                go(x, block, not block and x[0] not in ('mark', 'marklab'))
    go(d, False, m != 'body')
    bad = [f for f in found if f in ('handle:st:expression', 'handle:st:block', 'handle:ex:block')]
    return bad[0] if bad else 'handle:other'


def owned(F, cx, rd):
    """Expressions and structures, as terms, with what they are as an expression and as a body."""
    X, out = cx.X, {}
    ident = lambda n: struct(F, cx.adt('Identifier'), **{'0': ('sym', n)})
    key = lambda n, *f: variant(F, cx.adt('ObjectKey'), n, *f)

    def ex(n, t, body=None):
        out[n] = {'kind': 'ex', 'term': t, 'val': rd.val(t), 'body': body}
    ex('parenthesis', X('Parenthesis', ('sym', 'p')))
    ex('array', X('Array', arr((('sym', 'y1'), ('sym', 'y2')))))
    a = lambda i, v: ('Attribute', rd.text(i), rd.val(v))
    i1, v1, v2 = ident('i1'), X('Parenthesis', ('sym', 'p1')), X('Parenthesis', ('sym', 'p2'))
    ex('object', X('Object', arr((tup(key('Identifier', i1), v1), tup(key('Expression', X('String', cstr('k'))), v2)))),
       (a(i1, v1), ('Attribute', ('text', 'k'), rd.val(v2))))
    ex('object key', X('Object', arr((tup(key('Expression', v1), v2),))))
    for n in ('Conditional', 'ForExpr', 'FuncCall', 'Operation', 'TemplateExpr', 'Traversal', 'Variable'):
        t = cx.adt(n)
        w = [v for v in cx.exp['variants'] if v['name'] == n]
        if t and w:
            t = variant(F, t, 'Unary', ('sym', 'w')) if n == 'Operation' else variant(F, t, 'QuotedString', ('sym', 'w')) if n == 'TemplateExpr' else \
                struct(F, t, **{f['name']: ('sym', 'w%d' % i) for i, f in enumerate(t['variants'][0]['fields'])})
            out[n] = {'kind': 'ex', 'term': t, 'val': rd.val(X(n, t)), 'body': None}
    at = struct(F, cx.adt('Attribute'), key=ident('i2'), expr=v1)
    bl = struct(F, cx.adt('Block'), identifier=ident('i3'), labels=('sym', 'ls'), body=struct(F, cx.adt('Body'), **{'0': ('sym', 'ss')}))
    st = lambda n, x: variant(F, cx.adt('Structure'), n, x)
    for n, t, ss in (('attribute', at, [st('Attribute', at)]), ('block', bl, [st('Block', bl)]), ('structure', st('Block', bl), [st('Block', bl)]),
                     ('body', struct(F, cx.adt('Body'), **{'0': arr((st('Attribute', at), st('Block', bl)))}), [st('Attribute', at), st('Block', bl)])):
        out[n] = {'kind': 'st', 'term': t, 'body': tuple(map(rd.struct, ss))}
    return out


def run(rep):
    F = load()
    cx = Ctx(F, rep)
    if DM not in F.adts:
        rep.oblige(False, 'anchor', 'the harness was not found (anchor)')
        return
    rep.rule('For every kind of the data model, at every place it can stand, the result is the value, expression or body the data model '
             'names: every element and entry once and in order, numbers unchanged, kinds that have no place rejected, errors of children returned.')
    term, rd = Terms(F), Read(F)
    entry = {'value': 'hcl::value::to_value', 'expr': find_fn(F, 'hcl', 'Expression::from_serializable'), 'body': find_fn(F, 'hcl', 'Body::from_serializable')}
    for k, f in entry.items():
        rep.oblige(f in F.fns, 'anchor:' + k, 'the serialization to a %s was not found (anchor)' % k)
    env = {('tls', 'flag'): cbool(False)}
    tables = sorted(f for f in F.fns if f.endswith('_HANDLES::__rust_std_internal_init_fn'))
    rep.oblige(len(tables) == 2, 'anchor:handles', 'the tables of expressions and structures in transit were not found (anchor)')
    for f in tables:
        xs, E = cx.run(f, None, args=lambda E: [], hooks=SerH)
        t = E.strip(F.fns[f]['lty'][0])
        if len(xs) == 1 and t[0] == 'adt' and t[2] and xs[0][1][0] == 'agg':
            k, x = F.tstr(t[2][0]), xs[0][1]
            for i, y in enumerate(x[4]):
                if isarr(y) or y == cint(0):       # what can change behind a shared reference
                    env[('cell', '%s:%d' % (k, i))] = y
            env[('tls', 'handles:' + k)] = x[:4] + (tuple(('slot', 'cell', '%s:%d' % (k, i), ()) if ('cell', '%s:%d' % (k, i)) in env else y for i, y in enumerate(x[4])),)
    rep.oblige(len(env) == 7, 'anchor:handletables', 'the tables of expressions and structures in transit cannot be initialised (anchor)')
    own = owned(F, cx, rd)
    term.own = Spec.own = own

    def go(key, m, d, inner=False):
        fid = entry[m]
        if fid not in F.fns:
            return
        what = 'serializing %s to %s' % (say(d), {'value': 'a value', 'expr': 'an expression', 'body': 'a body'}[m])
        try:
            xs, E = cx.run(fid, None, {'T': ('adt', DM, ())}, args=lambda E: [term(d)], hooks=SerH, env={**env, ('tls', 'flag'): cbool(inner)})
        except Limit as e:
            rep.oblige(False, key, '%s: %s' % (what, e))
            return
        rep.count('serialized values')
        rep.oblige(bool(xs), key + ':paths', '%s never returns' % what)
        for st, v in xs:
            if handle(E.full(st, v)):
                rep.oblige(False, handlekey(d, m), '%s gives the number of an internal handle in place of the data' % what)
                continue
            sp = Spec({e[1] for e in st.mon if e[0] == 'failed'}, [e[1] for e in st.mon if e[0] == 'finite'])
            try:
                want = sp.body(d) if m == 'body' else sp.val(d, m)
            except Fail as e:
                want = e
            except Skip:
                continue
            isok = v[0] == 'agg' and v[2] == RES and v[3] == 0
            if m != 'value':
                rep.oblige(st.env.get(('tls', 'flag')) == cbool(inner), key + ':flag', '%s does not leave the thread in the state it was in' % what)
            for k, x in st.env.items():
                if isok and k[0] == 'cell' and isarr(x):
                    rep.oblige(not x[4], key + ':table', '%s leaves data behind in the table of handles' % what)
            if isinstance(want, Fail):
                good = v[0] == 'agg' and v[2] == RES and v[3] == 1 and (want.e is None or contains(v, want.e))
                rep.oblige(good, key + ':err', '%s does not report %s' % (what, 'the error of a part' if want.e else 'that this is not supported'))
                continue
            got = (rd.body if m == 'body' else rd.val)(E.full(st, v[4][0])) if isok else None
            rep.oblige(isok and got == want, key, '%s gives %s and not %s' % (what, str(got) if isok else 'an error', str(want)))

    L = lambda i=1: ('leaf', 'x%d' % i)
    prims = [('bool', True), ('bool', False), ('i8', -128), ('i8', 127), ('i16', -2 ** 15), ('i32', -2 ** 31), ('i64', -2 ** 63), ('i64', 2 ** 63 - 1), ('u8', 255), ('u16', 65535),
             ('u32', 2 ** 32 - 1), ('u64', 2 ** 64 - 1), ('u64', 0), ('f32',), ('f64',), ('char', 'c'), ('str', 'abc'), ('str', 'a b'), ('text', 'abc'), ('bytes', (0, 255, 7)),
             ('bytes', ()), ('none',), ('unit',), ('ustruct',), ('uvar', 'abc'), ('uvar', 'a b')]
    for m in entry:
        for d in prims:
            go('%s:%s' % (m, d[0]), m, d)
    I = lambda n: ('i8', n)
    S_ = lambda *kv: ('struct', 'S', [(k, x) for k, x in kv])
    seqs = ('seq', 'tuple', 'ts')
    # arrays and objects, with children of every kind
    kids = [L(1), ('mark', L(1)), ('marklab', L(1)), ('some', L(1)), ('ns', L(1)), ('unit',), ('seq', [L(1), I(1)]), ('nv', 'v', L(1)), ('tv', 'v', [L(1), I(1)]), S_(('a', L(1))),
            ('sv', 'v', [('a', L(1)), ('b', I(1))]), ('map', [(('str', 'a'), L(1))])]
    keys = [('leaf', 'x5'), ('char', 'c'), ('str', 'k'), ('str', 'a b'), ('text', 'k'), ('uvar', 'k'), ('some', ('str', 'k')), ('ns', ('str', 'k')), ('i8', -1),
            ('i16', 1), ('i32', 2), ('i64', 3), ('u8', 4), ('u16', 5), ('u32', 6), ('u64', 7), ('bool', True), ('f64',), ('none',), ('unit',), ('ustruct',), ('bytes', (1,)), ('seq', []),
            ('tuple', []), ('ts', []), ('map', []), S_(), ('tv', 'v', []), ('sv', 'v', [])]
    for m in ('value', 'expr'):
        go(m + ':leaf', m, L())
        for n in range(0, 4):
            xs = [L(i + 1) for i in range(n)]
            kv = list(zip(('a', 'b', 'c'), xs))
            for d in [(k, xs) for k in seqs] + [('tv', 'v', xs), ('sv', 'v', kv), S_(*kv), ('map', [(('str', k), x) for k, x in kv]), ('entries', [(('leaf', 'k' + k), x) for k, x in kv])]:
                go('%s:%s' % (m, d[0]), m, d)
        for x in kids:
            for d in [(k, [x, L(2)]) for k in seqs] + [('some', x), ('ns', x), ('nv', 'v', x), ('tv', 'v', [L(2), x]), ('sv', 'v', [('a', x), ('b', L(2))]), S_(('a', x), ('b', L(2))),
                                                      ('map', [(('str', 'a'), x), (('leaf', 'x3'), L(2))]), ('entries', [(('str', 'a'), x), (('leaf', 'x3'), L(2))])]:
                go('%s:%s' % (m, d[0]), m, d)
        for k in keys:
            for e in ('map', 'entries'):
                go('%s:key:%s' % (m, k[0]), m, (e, [(k, L(1)), (('str', 'z'), L(2))]))
        for x in kids + [p for p in prims if p[0] not in ('i16', 'i32', 'u8', 'u16')]:
            for e in ('map', 'entries'):
                go('%s:twice:%s' % (m, x[0]), m, (e, [(('str', 'a'), L(1)), (('str', 'b'), L(2)), (('str', 'a'), x)]))
                go('%s:twice:%s' % (m, x[0]), m, (e, [(('str', 'a'), x), (('leaf', 'x3'), L(2)), (('str', 'a'), L(1))]))
    # bodies
    Q = ('ns', L(1))
    nest = [S_(), S_(('a', Q)), S_(('a', I(1)), ('b', I(2))), ('map', [(('str', 'a'), Q), (('leaf', 'x3'), I(2))]), ('entries', [(('str', 'a'), Q)]), ('some', S_(('a', I(1)))),
            ('ns', S_(('a', I(1)))), ('seq', [S_(('a', I(1))), S_(('b', I(2))), S_()]), ('tuple', [S_(('a', I(1))), S_(('b', I(2)))]), ('ts', [S_(('a', I(1)))]), ('seq', []), ('nv', 'v', I(1)),
            ('nv', 'v', Q), ('nv', 'v', S_(('a', I(1)))), ('nv', 'a b', I(1)), ('tv', 'v', []), ('tv', 'v', [I(1), S_(('a', Q))]), ('tv', 'v', [S_(('a', I(1))), S_(('b', I(2)))]), ('tv', 'a b', [I(1)]), ('sv', 'v', []),
            ('sv', 'v', [('a', I(1)), ('b', Q)]), ('sv', 'a b', [('a', I(1))]), S_(('a b', I(1))), S_(('a', S_(('b', I(1)))), ('c', ('seq', [I(1), Q]))), ('map', [(('str', 'a b'), I(1))]),
            ('map', [(('i8', 1), I(1))])]
    marked = [(mk, x) for mk in ('mark', 'marklab') for x in nest]
    deep = [('nv', 'v', S_(('a', S_(('b', I(1)))))), S_(('l1', S_(('b', I(1)))), ('l2', S_(('b', Q)))), ('map', [(('str', 'a b'), S_(('b', I(1)))), (('leaf', 'x3'), S_())]),
            ('entries', [(('str', 'a b'), S_(('b', I(1))))]), ('seq', [S_(('l', S_(('a', I(1))))), S_(('m', S_()))]), ('sv', 'v', [('l', S_(('a', I(1)))), ('m', S_(('b', I(1))))]),
            ('tv', 'v', [S_(('a', I(1))), S_(('b', I(1)))]), S_(('l', ('seq', [S_(('a', I(1))), S_()]))), S_(('l', ('nv', 'v', I(1)))), S_(('l', ('nv', 'v', ('mark', S_(('a', I(1))))))), S_(('l', ('sv', 'v', [('a', I(1))]))),
            S_(('l', ('tv', 'v', [S_(('a', I(1)))])))]
    deep += [S_(('l', (mk, x))) for mk in ('mark', 'marklab') for x in nest + deep[:3]]
    deep += [S_(('p', I(1)), ('q', ('mark', S_(('r', ('marklab', S_(('s', S_(('t', I(1)))), ('u', S_())))), ('w', I(2))))))]
    lab = [('marklab', x) for x in (S_(('l', S_(('a', I(1))))), ('tv', 'v', [S_(('a', I(1)))]), S_(('l', ('mark', S_(('a', I(1)))))))] + [('mark', S_(('a', I(1))))]
    for y in lab:
        deep += [('nv', 'w', y), ('sv', 'w', [('f', y), ('g', y)]), ('tv', 'w', [y, y]), S_(('f', y), ('g', y)), ('map', [(('str', 'a b'), y), (('leaf', 'x3'), y)]), ('entries', [(('str', 'a b'), y)]),
                 S_(('f', ('nv', 'w', y))), S_(('f', ('tv', 'w', [y]))), S_(('f', ('sv', 'w', [('g', y)])))] + [(k, [y, y]) for k in seqs]
    for x in nest + marked + prims + [L(1)] + [(mk, x) for mk in ('mark', 'marklab') for x in deep + prims]:
        go('body:' + x[0], 'body', x)
        go('body:field:' + x[0], 'body', S_(('f', x), ('g', I(9))))
        go('body:entry:' + x[0], 'body', ('map', [(('str', 'f'), x), (('str', 'g'), I(9))]))
        go('body:elem:' + x[0], 'body', ('seq', [x, S_(('g', I(9)))]))
        go('body:nv:' + x[0], 'body', ('nv', 'w', x))
        go('body:sv:' + x[0], 'body', ('sv', 'w', [('f', x), ('g', I(9))]))
        if x[0] in ('mark', 'marklab'):
            go('body:opt:' + x[0], 'body', S_(('f', ('some', x)), ('g', I(9))))
    for x in nest + prims + [L(1)]:
        for e in ('map', 'entries'):
            go('body:twice:' + x[0], 'body', (e, [(('str', 'f'), I(1)), (('str', 'g'), I(9)), (('str', 'f'), x)]))
            go('body:twice:' + x[0], 'body', S_(('f', ('mark', (e, [(('str', 'g'), x), (('str', 'g'), I(1)), (('str', 'g'), x)])))))
    for k in keys:
        go('body:key:' + k[0], 'body', ('map', [(k, I(1))]))
        go('body:blockkey:' + k[0], 'body', S_(('f', ('mark', ('entries', [(k, I(1))])))))
        go('body:labelkey:' + k[0], 'body', S_(('f', ('marklab', ('map', [(k, S_(('a', I(1))))])))))
    # the library's own types inside foreign data
    for n, o in own.items():
        x = (o['kind'], n)
        for m in ('expr', 'body'):
            ps = [x] + [(k, [x, L(2)]) for k in seqs[:1]] + [('some', x), ('ns', x)]
            ps += [('nv', 'v', x), ('tv', 'v', [x, x]), S_(('a', x), ('b', I(2))), ('map', [(('str', 'a'), x)]), ('entries', [(('str', 'a'), x)]), ('sv', 'v', [('a', x)])]
            if m == 'body':
                ps += [S_(('f', ('mark', y))) for y in (x, S_(('a', x)), ('seq', [S_(('a', x))]), ('some', x))] + [S_(('f', ('marklab', S_(('l', x)))))] + \
                    [('seq', [x, x, S_(('f', x))])]
            for d in ps:
                go('own:%s:%s:%s' % (m, o['kind'], d[0] if d[0] != 'struct' or d[2][0][0] != 'f' else d[2][0][1][0]), m, d)
    for m in ('expr', 'body'):                # a serialization inside of another
        for d in (S_(('a', L(1))), S_(('a', I(1))), L(1), ('bytes', ())):
            go('nested:' + m, m, d, True)
    entries(rep, F, cx, term, env)
    rep.floor('serialized values', 2500)


class SerEntryH(SerH):
    """Serialization by the entry points: the body that is made is formatted once."""
    def ucall(self, E, st, c):
        if c.trait == FMT and c.np.endswith('::format'):
            x = E.full(st, E.deref(st, c.args[0]))
            t = E.strip(c.targs[0])
            if x[0] == 'agg' and t[0] == 'adt' and t[1].endswith('::Body'):
                st.env[('body', 0)] = x
                c.args = [('sym', 'thebody')] + list(c.args[1:])
        r = EntryH.ucall(self, E, st, c)
        return r if r is not None else SerH.ucall(self, E, st, c)


def entries(rep, F, cx, term, env):
    """to_string, to_vec, to_writer and the methods of the serializer."""
    SerEntryH.fields, SerEntryH.cfields = ([f['name'] for f in adt_named(F, 'hcl', n)['variants'][0]['fields']] for n in ('Formatter', 'FormatState'))
    d = ('struct', 'S', [('a', ('i8', 1)), ('b', ('ns', ('leaf', 'x1')))])
    fns = [(n, 'hcl::ser::' + n if 'hcl::ser::' + n in F.fns else None) for n in ('to_string', 'to_vec', 'to_writer')]
    fns += [(n, find_fn(F, 'hcl', n.replace('::', '<W>::'))) for n in ('Serializer::serialize', 'Serializer::serialize_string', 'Serializer::serialize_vec')]
    want = Spec(set(), []).body(d)
    rd = Read(F)
    for name, f in fns:
        rep.oblige(f is not None, 'anchor:' + name, '%s was not found (anchor)' % name)
        if f is None:
            continue
        w = name in ('to_writer', 'Serializer::serialize')
        ev = dict(env)
        args = [('sym', 'out')] if w else []
        if name.startswith('Serializer'):
            new = find_fn(F, 'hcl', 'Serializer<W>::new')
            xs, E = cx.run(new, None, {}, args=lambda E: args if w else [arr(())], hooks=SerEntryH, env=dict(env)) if new else ([], None)
            rep.oblige(len(xs) == 1, 'anchor:new', 'the constructor of the serializer is not understood (anchor)')
            if len(xs) != 1:
                continue
            ev[('serializer', 0)] = xs[0][1]
            args = [('slot', 'serializer', 0, ())]
        xs, E = cx.run(f, None, {'T': ('adt', DM, ())}, args=lambda E: args + [term(d)], hooks=SerEntryH, env=ev)
        oks = 0
        for st, v in xs:
            rep.count('entry point paths')
            failed = [('err:' + e[1]) for e in st.mon if e[0] == 'failed' and len(e) > 1] + (['err'] if 'failed' in st.mon else [])
            isok = v[0] == 'agg' and v[2] == RES and v[3] == 0
            if failed or 'invalid' in st.mon:
                rep.oblige(not isok and (not failed or contains(v, ('sym', failed[0]))), name + ':err', '%s does not report %s' % (
                    name, 'text that is not UTF-8' if not failed else 'the error of the writer' if failed[0] == 'err' else 'the error of a part of the value'))
                continue
            oks += 1
            if not isok:
                rep.oblige(False, name, '%s fails without a reason' % name)
                continue
            got = E.full(st, v[4][0])
            got = tuple(st.mon) if w else got[1] if got[0] == 'toks' else None
            good = got is not None and len(got) == 1 and got[0][:4] == ('val', ('sym', 'thebody'), cint(0), cint(0))
            rep.oblige(good and rd.body(st.env[('body', 0)]) == want, name, '%s does not write exactly the body of the value' % name)
            rep.oblige(st.env.get(('tls', 'flag')) == cbool(False), name + ':flag', '%s leaves the thread in internal serialization' % name)
        rep.oblige(oks > 0, name + ':ok', '%s never succeeds' % name)
    rep.floor('entry point paths', 15)


def say(d):
    return repr(d)
