"""P19: deserialization gives every part of the data: every request of the data model, from values and expressions, and
the library's own types from their own deserializers and from foreign formats."""
from p_eval import *
from p_fmt import FMT, FmtH
from p_ser import Skip, Read, isident

SEED = 'serde_core::de::DeserializeSeed'
DE = 'serde_core::de::Deserialize'
DER = 'serde_core::de::Deserializer'
HD = 'harness::de::'
PHANTOM = 'core::marker::PhantomData'


class DeH(FmtH):
    max_inline = 200
    max_rec = 40

    def ucall(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        R = lambda v: E.resume(st, c.ret, v)
        t = E.strip(c.targs[0]) if c.targs else None
        if np == 'iter::Iterator::fuse':
            return R(a[0])
        if np.endswith('size_hint::cautious'):
            return R(cint(0))                 # the room to keep in advance
        if n == 'into_deserializer' and t and t[0] == 'adt' and t[1].split('::')[-1] in ('IndexMap', 'VecMap'):
            x = E.full(st, a[0])
            m = 'serde_core::de::value::MapDeserializer'
            f = [g for g in E.F.fns if g.startswith('serde_core::de::value::') and g.endswith('::new') and E.F.fns[g]['lty'][0][:2] == ('adt', m)]
            if isarr(x) and len(f) == 1:
                return E.enter(st, f[0], (), [('it', 'list', x[4], 0)], c.ret, c.line)
        if np == 'iter::Iterator::size_hint':
            x = E.full(st, E.deref(st, a[0]))
            if x[:2] == ('it', 'list'):
                k = cint(len(x[2]) - x[3])
                return R(tup(k, some(k)))
        if np == 'iter::Iterator::count' and a[0][:2] == ('it', 'list'):
            return R(cint(len(a[0][2]) - a[0][3]))
        if n == 'from_f64' and c.id.startswith('hcl_primitives::number::'):
            x = E.full(st, a[0])
            o = st.copy()
            o.mon = o.mon + (('infinite', x),)
            return R(some(self.float(x))) + E.resume(o, c.ret, NONE)
        if c.trait == DE and n == 'deserialize' and t[0] == 'adt' and t[1].split('::')[-1] in ('IndexMap', 'VecMap'):
            return E.enter(st, HD + 'map', sorted({'K': t[2][0], 'V': t[2][1], 'D': c.targs[1]}.items()), [a[0]], c.ret, c.line)
        if c.trait in (SEED, DE) and n == 'deserialize':
            d, dt = (a[1], c.targs[1]) if c.trait == SEED else (a[0], c.targs[1])
            x = E.full(st, d)
            while x[0] == 'agg' and x[1] == 'adt' and (x[2].endswith('::ValueDeserializer') or x[2] == HD + 'From'):
                x = x[4][0]
            k = dt[1].split('::')[-1] if dt[0] == 'adt' else None
            if x[0] == 'sym' and k in ('ValueDeserializer', 'Expression', 'From', 'Value', 'TemplateExpr', 'Operation'):
                to = c.targs[0]
                if c.trait == SEED and to[0] == 'adt' and to[1] == PHANTOM:
                    to = to[2][0]
                while to[0] == 'adt' and to[1].split('::')[-1] == 'Box':
                    to = to[2][0]
                if to[0] == 'ref':
                    w = ('agg', 'got', 'want', None, (x, E.full(st, E.deref(st, a[0]))))
                else:
                    w = x if to[0] == 'adt' and to[1].split('::')[-1] == k.replace('Deserializer', '') else ('agg', 'got', E.F.tstr(to), None, (x,))
                o = st.copy()
                o.mon = o.mon + (('failed', x[1]),)
                return E.resume(st, c.ret, ok(w)) + E.resume(o, c.ret, err(('sym', 'err:' + x[1])))
        if c.trait == DER and n.startswith('deserialize_'):
            x = E.full(st, a[0])
            while x[0] == 'agg' and x[1] == 'adt' and (x[2].endswith('::ValueDeserializer') or x[2] == HD + 'From'):
                x = x[4][0]
            if x[0] == 'sym' and t[0] == 'adt' and t[1].split('::')[-1] in ('ValueDeserializer', 'Expression', 'From'):
                o = st.copy()
                o.mon = o.mon + (('failed', x[1]),)
                return E.resume(st, c.ret, ok(('agg', 'got', 'form', None, (x,)))) + E.resume(o, c.ret, err(('sym', 'err:' + x[1])))
        if n == 'to_interpolated_string':
            x = E.full(st, E.deref(st, a[0]))
            o = st.copy()
            o.mon = o.mon + (('failed', 'interpolated'),)
            return R(ok(('agg', 'got', 'interpolated', None, (x,)))) + E.resume(o, c.ret, err(('sym', 'err:interpolated')))
        if c.trait == FMT and n == 'format':
            return R(ok(UNIT)) + E.resume(st.copy(), c.ret, err(('sym', 'err:format')))
        if n == 'to_string' and t and t[0] == 'adt' and t[1].split('::')[-1] in ('Expression', 'Operation', 'Template', 'Traversal', 'FuncCall', 'Conditional', 'ForExpr', 'Heredoc'):
            return R(('agg', 'got', 'printed', None, (E.full(st, E.deref(st, a[0])),)))
        if n == 'to_string' and t and t[0] == 'adt' and t[1].split('::')[-1] == 'TemplateExpr':
            return R(('agg', 'got', 'template', None, (E.full(st, E.deref(st, a[0])),)))
        return FmtH.ucall(self, E, st, c)


class DeCtx(Ctx):
    def __init__(self, F, rep):
        Ctx.__init__(self, F, rep)
        self.W = F.adts[HD + 'Want']
        self.num = [a for i, a in F.adts.items() if a['crate'] == 'hcl_primitives' and i.split('::')[-1] == 'Number'][0]
        inner = self.num['variants'][0]['fields'][0]['ty']
        self.n = F.adts[inner[1]]

    def run(self, *a, **k):
        return Ctx.run(self, *a, float=lambda x: self.number(('f', x)), **k)

    def adt(self, name):
        xs = [a for a in self.F.adts.values() if a['crate'] == 'hcl_primitives' and a['id'].split('::')[-1] == name]
        return Ctx.adt(self, name) or (xs[0] if len(xs) == 1 else None)

    # terms
    def number(self, x):
        k, v = x
        i = {'u': 'PosInt', 'i': 'NegInt', 'f': 'Float'}[k]
        v = ('sym', v) if isinstance(v, str) else v if isinstance(v, tuple) else cint(v)
        return struct(self.F, self.num, **{self.num['variants'][0]['fields'][0]['name']: variant(self.F, self.n, i, v)})

    def data(self, d, V):
        k = d[0]
        if k == 'leaf':
            return ('sym', d[1])
        if k == 'null':
            return V('Null')
        if k == 'bool':
            return V('Bool', cbool(d[1]))
        if k == 'num':
            return V('Number', self.number(d[1:]))
        if k == 'str':
            return V('String', cstr(d[1]))
        if k == 'arr':
            return V('Array', arr(tuple(self.data(x, V) for x in d[1])))
        if k == 'obj':
            return V('Object', arr(tuple(tup(self.key(a, V), self.data(b, V)) for a, b in d[1])))
        return d[1] if V is None else V(*d[1:])

    def key(self, k, V):
        if V == self.V:
            return cstr(k)
        o = self.adt('ObjectKey')
        if isinstance(k, str):
            return variant(self.F, o, 'Identifier', self.ident(k))
        return variant(self.F, o, 'Expression', self.data(k, V))

    def ident(self, s):
        def wrap(t):
            if t[0] == 'adt' and t[1] in self.F.adts and len(self.F.adts[t[1]]['variants'][0]['fields']) == 1:
                f = self.F.adts[t[1]]['variants'][0]['fields'][0]
                return struct(self.F, self.F.adts[t[1]], **{f['name']: wrap(f['ty'])})
            return cstr(s)
        return wrap(('adt', self.adt('Identifier')['id'], ()))

    # requests
    def want(self, w):
        F, W = self.F, self.W
        v = lambda n, *f: variant(F, W, n, *f)
        k = w[0]
        if k == 'Any':
            return v('Any', struct(F, F.adts[HD + 'Kids'], key=v('Text'), part=v('Str')))
        if k in ('Opt', 'Seq'):
            return v(k, self.want(w[1]))
        if k == 'UnitStruct':
            return v(k, cstr('U'))
        if k == 'NewtypeStruct':
            return v(k, cstr(w[2] if len(w) > 2 else 'N'), self.want(w[1]))
        if k == 'Tuple':
            return v(k, cint(w[1]), self.want(w[2]))
        if k == 'TupleStruct':
            return v(k, cstr('T'), cint(w[1]), self.want(w[2]))
        if k == 'Map':
            return v(k, self.want(w[1]), self.want(w[2]))
        if k == 'Struct':
            return v(k, cstr('S'), arr(()), self.want(w[1]))
        if k == 'Enum':
            f = F.adts[HD + 'Form']
            g = w[1]
            x = variant(F, f, g[0], *([] if g[0] == 'Unit' else [self.want(g[1])] if g[0] == 'Newtype' else
                                      [cint(g[1]), self.want(g[2])] if g[0] == 'Tuple' else [arr(()), self.want(g[1])]))
            return v(k, cstr(w[2] if len(w) > 2 else 'E'), arr(()), x)
        return v(k)

    def got(self, x):
        """What was given, in the words of the specification."""
        if x[0] != 'agg' or x[1] != 'adt' or x[2] != HD + 'Got':
            if x[0] == 'agg' and x[1] == 'got' and x[2] == 'want':
                return ('leaf', x[4][0][1], x[4][1])
            return x
        n = self.F.vname(x[2], x[3])
        y = x[4]
        if n in ('Some', 'Newtype'):
            return (n, self.got(y[0]))
        if n == 'Seq' and isarr(y[0]):
            return (n, tuple(map(self.got, y[0][4])))
        if n == 'Map' and isarr(y[0]):
            return (n, tuple((self.got(p[4][0]), self.got(p[4][1])) for p in y[0][4]))
        if n == 'Variant':
            return (n, self.got(y[0]), self.got(y[1]))
        if n == 'Text':
            return (n, Read.text(self, y[0]))
        if y and y[0][0] == 'const':
            return (n, y[0][2])
        return (n,) + tuple(y)


INTS = ('I8', 'I16', 'I32', 'I64', 'I128', 'U8', 'U16', 'U32', 'U64', 'U128', 'F32', 'F64')
TEXTS = ('Char', 'Str', 'Text', 'Identifier')
NAMED = {'Conditional': 'Conditional', 'FuncCall': 'FuncCall', 'ForExpr': 'ForExpr', 'Traversal': 'Traversal'}


class Spec:
    """What a request must be given, from the data model and the documentation alone."""
    def __init__(self, cx, m, failed, shut=False):
        self.cx, self.m, self.failed, self.shut = cx, m, failed, shut

    def fail(self, what):
        if what in self.failed:
            raise Fail(('sym', 'err:' + what))

    def ask(self, w, d):
        """The seed w on the data d."""
        if d[0] == 'leaf':
            self.fail(d[1])
            return ('leaf', d[1], self.cx.want(w))
        return getattr(self, self.m)(w, d)

    def number(self, d):
        return {'u': 'U64', 'i': 'I64', 'f': 'F64'}[d[1]], ('sym', d[2]) if isinstance(d[2], str) else d[2]

    # what a visitor makes of parts
    def seq(self, w, d):
        k = w[0]
        if k in ('Bytes', 'ByteBuf'):
            v, n = ('U8',), None
        elif k == 'Any':
            v, n = ('Str',), None
        elif k in ('Seq', 'Struct'):
            v, n = w[1], None
        elif k in ('Tuple', 'TupleStruct'):
            v, n = w[2], w[1]
        elif k == 'Enum' and w[1][0] == 'Tuple':
            v, n = w[1][2], w[1][1]
        else:
            raise Fail()
        out = tuple(self.ask(v, x) for x in (d[1] if n is None else d[1][:n]))
        if n is not None and len(d[1]) > n:
            raise Fail()
        return ('Seq', out)

    def map(self, w, d):
        k = w[0]
        if k == 'Any':
            kw, v = ('Text',), ('Str',)
        elif k == 'Map':
            kw, v = w[1], w[2]
        elif k == 'Struct':
            kw, v = ('Identifier',), w[1]
        elif k == 'Enum' and w[1][0] == 'Struct':
            kw, v = ('Identifier',), w[1][1]
        else:
            raise Fail()
        out = ()
        for a, b in d[1]:
            a = ('Text', ('text', a)) if isinstance(a, str) else self.any(kw, a)
            out += ((a, self.ask(v, b)),)
        return ('Map', out)

    def any(self, w, d):
        k = d[0]
        if k == 'null':
            return ('Unit',)
        if k == 'bool':
            return ('Bool', d[1])
        if k == 'num':
            return self.number(d)
        if k == 'str':
            return ('Text', ('text', d[1]))
        if k == 'arr':
            return self.seq(w, d)
        if k == 'obj':
            return self.map(w, d)
        if k == 'x':
            n = d[1]
            if n == 'Parenthesis':
                return self.any(w, d[3])
            return self.text(d)
        raise KeyError(k)

    def text(self, d):
        if d[0] == 'str':
            return ('Text', ('text', d[1]))
        x = self.cx.data(d[:3], self.cx.X)
        if d[0] == 'x' and d[1] == 'TemplateExpr':
            return ('Text', ('agg', 'got', 'template', None, (d[2],)))
        self.fail('interpolated')
        return ('Text', ('agg', 'got', 'interpolated', None, (x,)))

    def name(self, s):
        return ('Text', ('text', s))

    def enum(self, w, d):
        f = w[1]
        if d[0] == 'str':
            if f[0] != 'Unit':
                raise Fail()
            return ('Variant', self.name(d[1]), ('Unit',))
        if d[0] == 'obj':
            if len(d[1]) != 1:
                raise Fail()
            (k, v), = d[1]
            k = self.name(k) if isinstance(k, str) else self.any(('Identifier',), k)
            if f[0] == 'Unit':
                if v[0] in ('null', 'leaf'):
                    raise Skip()              # some accept a name with null in place of the name alone
                raise Fail()
            if f[0] == 'Newtype':
                return ('Variant', k, self.ask(f[1], v))
            if v[0] == 'leaf':
                raise Skip()
            return ('Variant', k, self.form(w, f, v))
        raise Fail()

    # values
    def value(self, w, d):
        k = w[0]
        if k == 'Opt':
            return ('None',) if d[0] == 'null' else ('Some', self.ask(w[1], d))
        if k == 'NewtypeStruct':
            return ('Newtype', self.ask(w[1], d))
        if k == 'Enum':
            return self.enum(w, d)
        return self.any(w, d)

    def form(self, w, f, v):
        if self.m == 'value':
            return self.any(w, v)
        return self.expr_seq(w, v) if f[0] == 'Tuple' else self.expr_map(w, v)

    # expressions
    def expr_seq(self, w, d):
        if d[0] == 'arr':
            return self.seq(w, d)
        raise Fail()

    def expr_map(self, w, d):
        if d[0] == 'obj':
            return self.map(w, d)
        if d[0] == 'x' and d[1] not in ('Parenthesis', 'Variable'):
            raise Skip()
        raise Fail()

    def expr(self, w, d):
        k = w[0]
        if d[0] == 'x' and d[1] == 'Parenthesis' and k not in ('Any', 'NewtypeStruct', 'Ignored') and not self.shut:
            if k == 'Opt' and d[3][0] != 'null':
                return ('Some', self.ask(w[1], d))
            return self.expr(w, d[3]) if d[3][0] != 'leaf' else self.ask(w, d[3])
        if k == 'Ignored':
            return ('Unit',)
        if k == 'Opt':
            return ('None',) if d[0] == 'null' else ('Some', self.ask(w[1], d))
        if k == 'NewtypeStruct':
            return ('Newtype', self.ask(w[1], d))
        if k == 'Enum':
            if d[0] == 'x' and d[1] in ('Operation', 'TemplateExpr'):
                raise Skip()                  # enums of the library's own: see the round trips
            return self.enum(w, d)
        if k == 'Any':
            return self.any(w, d)
        if k in TEXTS:
            return self.text(d)
        if k in INTS:
            if d[0] == 'num':
                return self.number(d)
        elif k == 'Bool':
            if d[0] == 'bool':
                return ('Bool', d[1])
        elif k in ('Unit', 'UnitStruct'):
            if d[0] == 'null':
                return ('Unit',)
        elif k in ('Bytes', 'ByteBuf'):
            if d[0] == 'str':
                return self.text(d)
            if d[0] == 'arr':
                return self.seq(w, d)
        elif k in ('Seq', 'Tuple', 'TupleStruct'):
            return self.expr_seq(w, d)
        elif k == 'Map':
            return self.expr_map(w, d)
        elif k == 'Struct':
            return self.seq(w, d) if d[0] == 'arr' else self.expr_map(w, d)
        raise Fail()


def requests():
    S = ('Str',)
    ws = [(k,) for k in ('Any', 'Bool', 'Unit', 'UnitStruct', 'Bytes', 'ByteBuf', 'Ignored') + INTS + TEXTS]
    ws += [('Opt', S), ('Opt', ('Opt', S)), ('NewtypeStruct', S), ('NewtypeStruct', ('Opt', S)), ('Seq', S), ('Seq', ('Opt', S))]
    ws += [(k, n, S) for k in ('Tuple', 'TupleStruct') for n in (0, 2)]
    ws += [('Map', ('Identifier',), S), ('Map', ('Text',), ('Opt', ('U8',))), ('Struct', S)]
    ws += [('Enum', f) for f in (('Unit',), ('Newtype', S), ('Tuple', 2, S), ('Struct', S))]
    return ws


def run(rep):
    F = load(serde=True)
    if HD + 'Want' not in F.adts or 'serde_core' not in {f['crate'] for f in F.fns.values()}:
        rep.oblige(False, 'anchor', 'the harness was not found (anchor)')
        return
    cx = DeCtx(F, rep)
    rep.rule('For every request of the data model and every kind of value or expression, what the visitor is given is the datum itself: '
             'every element and entry once and in order, numbers unchanged, requests that do not fit refused, errors of parts returned.')
    I = ('num', 'u', 7)
    L = lambda i: ('leaf', 'x%d' % i)
    data = [('null',), ('bool', True), ('bool', False), I, ('num', 'u', 2 ** 64 - 2), ('num', 'i', -7), ('num', 'i', -2 ** 63), ('num', 'f', 'f'), ('str', 'abc'), ('str', ''), ('arr', []), ('arr', [L(1)]), ('arr', [L(1), L(2)]),
            ('arr', [L(1), L(2), L(3)]), ('arr', [('null',), I]), ('arr', [('arr', [L(1)]), L(2)]), ('obj', []), ('obj', [('a', L(1))]), ('obj', [('a', L(1)), ('b', L(2))]),
            ('obj', [('a', ('null',))]), ('obj', [('a', ('arr', [L(1), L(2)]))]), ('obj', [('a', ('arr', [L(1), L(2), L(3)]))]), ('obj', [('a', ('obj', [('b', L(1)), ('c', L(2))]))]),
            ('obj', [('a', I), ('b', ('null',)), ('c', L(1))])]
    VD = find_de(F, cx, 'value')
    ED = ('adt', EXP, ())
    for m, dt, V in (('value', VD, cx.V), ('expr', ED, cx.X)):
        rep.oblige(dt is not None, 'anchor:' + m, 'the deserializer of %ss was not found (anchor)' % m)
        if dt is None:
            continue
        ds = list(data)
        if m == 'expr':
            K = [('str', 'k'), L(5)]
            ds += [('obj', [(k, L(1))]) for k in K[:1]] + [('obj', [(('str', 'k'), L(1)), ('b', L(2))])] + others(cx)
        for d in ds:
            for w in requests():
                ask(rep, cx, m, dt, V, w, d)
    rep.floor('requests', 1000)
    backs(rep, cx)
    reads(rep, cx)
    entries(rep, cx)


def kinds(cx):
    """Every kind of node of the library, with opaque expressions for its parts."""
    F, A, X = cx.F, cx.adt, cx.X
    e = lambda i: ('sym', 'e%d' % i)
    S = lambda n, **k: struct(F, A(n), **k)
    V = lambda n, m, *f: variant(F, A(n), m, *f)
    ident = cx.ident
    out = []

    def put(t, *xs):
        out.extend((t, x) for x in xs)
    put('Identifier', ident('abc'))
    put('Variable', S('Variable', **{'0': ident('v')}))
    put('ObjectKey', V('ObjectKey', 'Identifier', ident('k')), V('ObjectKey', 'Expression', e(1)))
    heredoc = [S('Heredoc', delimiter=ident('EOT'), template=cstr('text'), strip=V('HeredocStripMode', v['name'])) for v in A('HeredocStripMode')['variants']]
    put('Heredoc', *heredoc)
    put('HeredocStripMode', *[V('HeredocStripMode', v['name']) for v in A('HeredocStripMode')['variants']])
    tmpl = [V('TemplateExpr', 'QuotedString', cstr('abc')), V('TemplateExpr', 'Heredoc', heredoc[0])]
    put('TemplateExpr', *tmpl)
    un = [S('UnaryOp', operator=V('UnaryOperator', v['name']), expr=e(1)) for v in A('UnaryOperator')['variants']]
    bi = [S('BinaryOp', lhs_expr=e(1), operator=V('BinaryOperator', v['name']), rhs_expr=e(2)) for v in A('BinaryOperator')['variants']]
    put('UnaryOp', *un)
    put('BinaryOp', *bi)
    ops = [V('Operation', 'Unary', un[0]), V('Operation', 'Binary', bi[0])]
    put('Operation', *ops)
    cond = S('Conditional', cond_expr=e(1), true_expr=e(2), false_expr=e(3))
    put('Conditional', cond)
    fors = [S('ForExpr', key_var=kv, value_var=ident('v'), collection_expr=e(1), key_expr=ke, value_expr=e(3), grouping=cbool(g), cond_expr=c)
            for kv in (NONE, some(ident('k'))) for ke in (NONE, some(e(2))) for g in (True, False) for c in (NONE, some(e(4)))]
    put('ForExpr', *fors)
    names = [S('FuncName', namespace=arr(tuple(map(ident, ns))), name=ident('f')) for ns in ((), ('n',), ('n', 'm'))]
    put('FuncName', *names)
    calls = [S('FuncCall', name=n, args=arr(tuple(map(e, range(1, k + 1)))), expand_final=cbool(x)) for n in names for k in range(3) for x in (False, True)]
    put('FuncCall', *calls)
    tops = [V('TraversalOperator', 'AttrSplat'), V('TraversalOperator', 'FullSplat'), V('TraversalOperator', 'GetAttr', ident('a')), V('TraversalOperator', 'Index', e(2)),
            V('TraversalOperator', 'LegacyIndex', cint(3))]
    put('TraversalOperator', *tops)
    trav = [S('Traversal', expr=e(1), operators=arr(tuple(o))) for o in ((), tops[:1], tops[2:4], tops)]
    put('Traversal', *trav)
    keys = [V('ObjectKey', 'Identifier', ident('k')), V('ObjectKey', 'Expression', e(5))]
    num = [cx.number(x) for x in (('u', 0), ('u', 2 ** 64 - 1), ('i', -7), ('i', -2 ** 63), ('f', 'f'))]
    exps = [X('Null'), X('Bool', cbool(True)), X('Bool', cbool(False)), X('String', cstr('abc')), X('String', cstr('')), X('Array', arr(())), X('Array', arr((e(1), e(2)))),
            X('Object', arr(())), X('Object', arr((tup(keys[0], e(1)), tup(keys[1], e(2))))), X('Variable', S('Variable', **{'0': ident('v')})), X('Parenthesis', e(1)),
            X('Conditional', cond), X('ForExpr', fors[-1])] + [X('Number', n) for n in num] + [X('TemplateExpr', t) for t in tmpl] + [X('Operation', o) for o in ops] + \
        [X('FuncCall', c) for c in calls] + [X('Traversal', t) for t in trav] + [X('Array', arr((X('Array', arr((e(1),))), X('Null')))), X('Parenthesis', X('Parenthesis', e(1)))]
    put('Expression', *exps)
    at = [S('Attribute', key=ident('k'), expr=x) for x in (e(1), X('Null'))]
    put('Attribute', *at)
    labels = [V('BlockLabel', 'Identifier', ident('l')), V('BlockLabel', 'String', cstr('a b'))]
    put('BlockLabel', *labels)
    B = lambda *ss: S('Body', **{'0': arr(ss)})
    A_, K = lambda x: V('Structure', 'Attribute', x), lambda x: V('Structure', 'Block', x)
    blocks = [S('Block', identifier=ident('b'), labels=arr(tuple(ls)), body=b) for ls in ((), labels[:1], labels) for b in (B(), B(A_(at[0])))]
    blocks.append(S('Block', identifier=ident('b'), labels=arr(()), body=B(K(blocks[3]), A_(at[0]), K(blocks[0]))))
    put('Block', *blocks)
    put('Structure', A_(at[0]), *map(K, blocks))
    bodies = [B(), B(A_(at[0])), B(K(blocks[-1]), A_(at[0]), A_(at[1]), K(blocks[3]), K(blocks[3]))]
    put('Body', *bodies)
    val = cx.V
    x = lambda i: ('sym', 'x%d' % i)
    put('Value', val('Null'), val('Bool', cbool(True)), val('String', cstr('abc')), val('Array', arr((x(1), x(2)))), val('Object', arr((tup(cstr('a'), x(1)), tup(cstr('b'), x(2))))),
        *[val('Number', n) for n in num])
    return out


def same(cx, key, what, exits, E, x):
    """Every path gives x itself, or the error of one of its parts."""
    rep = cx.rep
    rep.count('round trips')
    oks = 0
    for st, v in exits:
        failed = [e[1] for e in st.mon if e[0] == 'failed']
        if any(e[0] == 'infinite' for e in st.mon):
            continue                          # no number is infinite
        isok = v[0] == 'agg' and v[2] == RES and v[3] == 0
        if failed:
            rep.oblige(not isok and contains(v, ('sym', 'err:' + failed[0])), key + ':err', '%s does not report the error of a part' % what)
            continue
        oks += 1
        got = norm(E.full(st, v[4][0])) if isok else None
        rep.oblige(isok and got == norm(x), key, '%s gives %s' % (what, str(got)[:600] if isok else 'an error: ' + str(E.full(st, v))[:200]))
    rep.oblige(oks > 0, key + ':paths', '%s: no result' % what)


def backs(rep, cx):
    """Each node from its own deserializer is itself, and each body from the deserializer of documents."""
    F = cx.F
    rep.rule('Each kind of node of the language, read by its own deserializer, is the same node; the same holds for a body read from a document.')
    seen = {}
    for t, x in kinds(cx):
        a = cx.adt(t) if t != 'Value' else cx.val
        ty = ('adt', a['id'], ())
        seen.setdefault(t, 0)
        n = F.vname(x[2], x[3]) if F.nvariants(x[2]) > 1 else ''
        try:
            xs, E = cx.run(HD + 'back', None, {'T': ty, 'E': ('adt', 'hcl::error::Error', ())}, args=lambda E: [x], hooks=DeH)
            same(cx, 'back:%s:%s' % (t, n), 'a %s %s from itself (%s)' % (t, n, str(x)[:300]), xs, E, x)
        except Limit as e:
            rep.oblige(False, 'back:%s:%s' % (t, n), 'a %s from itself: %s' % (t, e))
    rep.floor('round trips', 100)


def src(cx, d):
    """Data of another format."""
    F, S = cx.F, cx.F.adts[HD + 'Src']
    v = lambda n, *f: variant(F, S, n, *f)
    k = d[0]
    if k == 'leaf':
        return ('sym', d[1])
    if k in ('None', 'Unit'):
        return v(k)
    if k == 'Bool':
        return v(k, cbool(d[1]))
    if k in ('Str', 'Borrowed', 'Text'):
        return v(k, cstr(d[1]))
    if k == 'Bytes':
        return v(k, arr(tuple(map(cint, d[1]))))
    if k in ('Some', 'Newtype'):
        return v(k, src(cx, d[1]))
    if k == 'Seq':
        return v(k, arr(tuple(src(cx, x) for x in d[1])))
    if k == 'Map':
        return v(k, arr(tuple(tup(src(cx, a), src(cx, b)) for a, b in d[1])))
    if k == 'Variant':
        return v(k, src(cx, ('Str', d[1])), src(cx, d[2]))
    return v(k, ('sym', d[1]) if isinstance(d[1], str) else cint(d[1]))


def foreign(cx, t, d, failed, infinite):
    """What the type t must make of the data d."""
    k = d[0]
    def part(ty, x):
        if x[0] == 'leaf':
            if x[1] in failed:
                raise Fail(('sym', 'err:' + x[1]))
            return ('agg', 'got', ty, None, (('sym', x[1]),))
        return foreign(cx, ty, x, failed, infinite)
    if t in ('Value', 'Expression'):
        V = cx.V if t == 'Value' else cx.X
        if k == 'Bool':
            return V('Bool', cbool(d[1]))
        if k in ('Str', 'Borrowed', 'Text'):
            return V('String', cstr(d[1]))
        if k in ('None', 'Unit'):
            return V('Null')
        if k == 'Some':
            return part(t, d[1])
        if k == 'Seq':
            return V('Array', arr(tuple(part(t, x) for x in d[1])))
        if k == 'Map':
            out = {}
            for a, b in d[1]:
                a = foreign(cx, 'Key' if t == 'Value' else 'ObjectKey', a, failed, infinite)
                out[a] = part(t, b)
            return V('Object', arr(tuple(tup(a, b) for a, b in out.items())))
        if k == 'F64' and infinite:
            return V('Null')
        return V('Number', foreign(cx, 'Number', d, failed, infinite))
    if t == 'Number':
        if k in ('I8', 'I16', 'I32', 'I64', 'U8', 'U16', 'U32', 'U64'):
            return cx.number(('i' if d[1] < 0 else 'u', d[1]))
        if k == 'F64' and not infinite:
            return cx.number(('f', d[1]))
    if t in ('Key', 'Identifier', 'Ident') and k in ('Str', 'Borrowed', 'Text'):
        if t == 'Key':
            return cstr(d[1])
        if isident(d[1]):
            x = cx.ident(d[1])
            return x if t == 'Identifier' else x[4][0]
    raise Fail()


def reads(rep, cx):
    """The library's own types from a foreign format."""
    F = cx.F
    rep.rule('From the data of any other format the library\'s types take the same data: numbers, text, sequences and maps with every part once and in '
             'order, the last of repeated keys, null for nothing; whatever has no place in them, and errors of parts, are returned.')
    L = lambda i: ('leaf', 'x%d' % i)
    S = lambda s: ('Str', s)
    I = ('I64', -7)
    data = [('Bool', True), ('Bool', False), ('None',), ('Unit',), ('Some', L(1)), ('Some', I), ('Newtype', L(1)), ('Bytes', (97, 98)), ('F64', 'f'),
            ('Str', 'abc'), ('Borrowed', 'abc'), ('Text', 'abc'), ('Str', ''), ('Str', 'a b'), ('Text', '9'), ('Borrowed', 'a-1'),
            ('Seq', []), ('Seq', [L(1)]), ('Seq', [L(1), L(2), L(3)]), ('Seq', [('Seq', [L(1)]), ('None',), I]),
            ('Map', []), ('Map', [(S('a'), L(1))]), ('Map', [(S('b'), L(1)), (S('a'), L(2)), (S('c'), L(3))]), ('Map', [(S('a'), L(1)), (S('b'), L(2)), (S('a'), L(3))]),
            ('Map', [(S('a'), ('Map', [(S('a'), L(1)), (S('b'), I)])), (S('b'), ('Unit',))])]
    data += [(k, x) for k in ('I8', 'I16', 'I32', 'I64') for x in (-7, 0, 7)] + [(k, x) for k in ('U8', 'U16', 'U32', 'U64') for x in (0, 7)]
    data += [('I64', -2 ** 63), ('I64', 2 ** 63 - 1), ('U64', 2 ** 63), ('U64', 2 ** 64 - 1), ('I128', 2 ** 64), ('U128', 2 ** 64)]
    data.append(('Map', [(I, L(1))]))
    for t in ('Value', 'Expression', 'Number', 'Identifier', 'Ident'):
        a = cx.adt(t) if t != 'Value' else cx.val
        rep.oblige(a is not None, 'anchor:' + t, 'no type %s (anchor)' % t)
        if a is None:
            continue
        for d in data:
            if t in ('Identifier', 'Ident') and d[0] == 'Bytes':
                continue                      # the bytes of a text
            if t == 'Expression' and d[0] == 'Map' and any(k[0] != 'Str' for k, _ in d[1]):
                continue                      # keys of any kind: expressions themselves
            key = 'read:%s:%s' % (t, d[0])
            what = '%s from %s' % (t, say(d))
            try:
                xs, E = cx.run(HD + 'read', None, {'T': ('adt', a['id'], ()), 'E': ('adt', 'hcl::error::Error', ())}, args=lambda E: [src(cx, d)], hooks=DeH)
            except Limit as e:
                rep.oblige(False, key, '%s: %s' % (what, e))
                continue
            rep.count('reads')
            rep.oblige(bool(xs), key + ':paths', '%s never returns' % what)
            for st, v in xs:
                failed = {e[1] for e in st.mon if e[0] == 'failed'}
                try:
                    want = foreign(cx, t, d, failed, any(e[0] == 'infinite' for e in st.mon))
                except Fail as e:
                    want = e
                isok = v[0] == 'agg' and v[2] == RES and v[3] == 0
                if isinstance(want, Fail):
                    good = v[0] == 'agg' and v[2] == RES and v[3] == 1 and (want.e is None or contains(v, want.e))
                    rep.oblige(good, key + ':err', '%s does not report %s but gives %s' % (what, 'the error of a part' if want.e else 'that the data does not fit', str(v)[:300]))
                    continue
                got = norm(E.full(st, v[4][0])) if isok else None
                rep.oblige(isok and got == norm(want), key, '%s gives %s and not %s' % (what, str(got)[:500] if isok else 'an error %s' % str(E.full(st, v))[:300], str(want)[:500]))
    rep.floor('reads', 200)


class DocH(DeH):
    """Documents and streams are opaque: what is read of them is what the parser, the decoder or the reader gives."""
    def ucall(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        name = E.F.tstr(E.strip(c.targs[-1 if n == 'parse' else 0])) if c.targs else ''

        def fork(what, v, good=None):
            o = st.copy()
            o.mon = o.mon + (('failed', what),)
            return E.resume(st, c.ret, ok(good or v)) + E.resume(o, c.ret, err(('sym', 'err:' + what)))
        full = lambda i: E.full(st, E.deref(st, a[i]))
        if n in ('parse', 'from_str') and (np.startswith('str::') or c.trait and c.trait.endswith('FromStr')) and name == 'Body':
            return fork('parse', ('agg', 'got', 'body', None, (full(0),)))
        if n == 'from_utf8' and full(0)[0] in ('sym', 'agg'):
            return fork('utf8', ('agg', 'got', 'utf8', None, (full(0),)))
        if n in ('read_to_string', 'read_to_end'):
            v = full(1)
            if isarr(v) and not v[4] or v == cstr(''):
                slot = a[1]
                while E.load(st, slot)[0] == 'slot':
                    slot = E.load(st, slot)
                out = fork('read', ('sym', 'length'))
                E.store(out[0] if not isinstance(out[0], tuple) else out[0][0], slot, ('agg', 'got', 'text', None, (full(0),)))
                return out
        if n == 'into_deserializer' and full(0)[:3] == ('agg', 'got', 'body'):
            return E.resume(st, c.ret, ('agg', 'got', 'self', None, (full(0),)))
        if n == 'into_json_spec':
            return E.resume(st, c.ret, ('agg', 'got', 'json', None, (full(0),)))
        if c.trait == DER and n.startswith('deserialize_'):
            x = full(0)
            while x[0] == 'agg' and x[1] == 'adt' and len(x[4]) == 1:
                x = x[4][0]
            if x[:3] in (('agg', 'got', 'json'), ('agg', 'got', 'value'), ('agg', 'got', 'self')) and E.strip(c.targs[0])[1] != 'hcl::de::Deserializer':
                return fork('form', ('agg', 'got', 'form', n, (x,)))
        return DeH.ucall(self, E, st, c)


def entries(rep, cx):
    """The ways in: what is deserialized is the document given, all of it, and errors of reading and parsing are returned."""
    F = cx.F
    rep.rule('The entry points deserialize exactly the document that was read and parsed: by the JSON form of the body, or the body itself where a body is asked for.')
    body = cx.adt('Body')
    D = find_fn(F, 'hcl', 'from_body')
    b = ('agg', 'got', 'body', None, (('sym', 'doc'),))
    der = F.adts.get('hcl::de::Deserializer')
    ways = [('from_str', 'doc', ()), ('from_slice', 'doc', ('utf8',)), ('from_reader', 'doc', ('text',)), ('from_body', b, None), ('from_value', ('agg', 'got', 'value', None, (('sym', 'doc'),)), None)]
    for name, x, how in ways:
        f = [g for g in F.fns if g in ('hcl::de::' + name, 'hcl::value::' + name)]
        rep.oblige(len(f) == 1, 'anchor:' + name, 'no function %s (anchor)' % name)
        if len(f) != 1:
            continue
        for T in ('Value', 'Body'):
            if name == 'from_value' and T == 'Body':
                continue
            key = 'entry:%s:%s' % (name, T)
            src_ = ('sym', 'doc') if how is not None else x
            doc = ('sym', 'doc')
            for h in how or ():
                doc = ('agg', 'got', h, None, (doc,))
            if how is not None:
                doc = ('agg', 'got', 'body', None, (doc,))
            else:
                doc = x
            want = doc if name == 'from_value' else ('agg', 'got', 'self' if T == 'Body' else 'json', None, (doc,))
            ty = ('adt', body['id'], ()) if T == 'Body' else ('adt', cx.val['id'], ())
            steps = {'utf8', 'text'} & set(how or ())
            need = {'utf8'} & steps | ({'read'} if 'text' in steps else set()) | ({'parse'} if how is not None else set()) | {'form'}
            try:
                xs, E = cx.run(f[0], None, {'T': ty, 'R': ('adt', 'std::io::Stdin', ())}, args=lambda E: [src_], hooks=DocH)
            except Limit as e:
                rep.oblige(False, key, '%s: %s' % (name, e))
                continue
            rep.count('entry points')
            seen = set()
            for st, v in xs:
                failed = [e[1] for e in st.mon if e[0] == 'failed']
                isok = v[0] == 'agg' and v[2] == RES and v[3] == 0
                if failed:
                    seen.add(failed[0])
                    rep.oblige(not isok and contains(v, ('sym', 'err:' + failed[0])), key + ':err', '%s does not return the error of %s' % (name, failed[0]))
                    continue
                seen.add(None)
                got = E.full(st, v[4][0]) if isok else v
                rep.oblige(isok and got[:3] == ('agg', 'got', 'form') and got[4] == (want,), key, '%s into a %s gives %s and not %s' % (name, T, str(got)[:300], str(want)[:300]))
            rep.oblige(seen == need | {None}, key + ':paths', '%s into a %s: outcomes %s' % (name, T, sorted(map(str, seen))))
    rep.floor('entry points', 9)
    if not der:
        rep.oblige(False, 'anchor:Deserializer', 'no deserializer of documents (anchor)')
        return
    j = ('agg', 'got', 'json', None, (b,))
    for w in requests():
        key = 'doc:' + w[0]
        try:
            xs, E = cx.run(HD + 'want', None, {'D': ('adt', der['id'], ())}, args=lambda E: [cx.want(w), ('agg', 'adt', der['id'], 0, (b,))], hooks=DocH)
        except Limit as e:
            rep.oblige(False, key, 'asking a document for %s: %s' % (say(w), e))
            continue
        rep.count('requests of documents')
        n = 0
        for st, v in xs:
            failed = [e[1] for e in st.mon if e[0] == 'failed']
            isok = v[0] == 'agg' and v[2] == RES and v[3] == 0
            if failed:
                rep.oblige(not isok and contains(v, ('sym', 'err:' + failed[0])), key + ':err', 'asking a document for %s does not return the error' % say(w))
                continue
            n += 1
            got = cx.got(E.full(st, v[4][0])) if isok else v
            u = w
            while u[0] == 'Opt' and isinstance(got, tuple) and got[0] == 'Some':
                u, got = u[1], got[1]
            m = METHOD.get(u[0], 'deserialize_' + u[0].lower())
            good = got[:3] == ('agg', 'got', 'form') and got[4] == (j,) and (got[3] == m or got[3] == 'deserialize_any' and u[0] not in ('Opt', 'NewtypeStruct', 'Enum'))
            rep.oblige(good, key, 'asking a document for %s gives %s and not that of its JSON form' % (say(w), str(got)[:300]))
        rep.oblige(n > 0, key + ':paths', 'asking a document for %s: no result' % say(w))
    rep.floor('requests of documents', 35)


METHOD = {'Text': 'deserialize_string', 'ByteBuf': 'deserialize_byte_buf', 'Opt': 'deserialize_option', 'UnitStruct': 'deserialize_unit_struct',
          'NewtypeStruct': 'deserialize_newtype_struct', 'TupleStruct': 'deserialize_tuple_struct', 'Ignored': 'deserialize_ignored_any'}


def find_de(F, cx, m):
    im = [i for i in F.impls if i['traitid'] == 'serde_core::de::IntoDeserializer' and i['selfty'] == ('adt', VAL, ())]
    t = [it['tyv'] for i in im for it in i['items'] if it['kind'] == 'type']
    return t[0] if len(t) == 1 else None


def others(cx):
    """The expressions which are no plain data."""
    F = cx.F
    out = []
    for n in ('Conditional', 'ForExpr', 'FuncCall', 'Operation', 'TemplateExpr', 'Traversal', 'Variable'):
        t = cx.adt(n)
        if t is None:
            continue
        x = variant(F, t, 'Unary', ('sym', 'w')) if n == 'Operation' else variant(F, t, 'QuotedString', ('sym', 'w')) if n == 'TemplateExpr' else \
            struct(F, t, **{f['name']: ('sym', 'w%d' % i) for i, f in enumerate(t['variants'][0]['fields'])})
        out.append(('x', n, x))
    for d in (('null',), ('bool', True), ('num', 'u', 7), ('str', 'abc'), ('arr', [('leaf', 'x1')]), ('obj', [('a', ('leaf', 'x1'))])):
        out.append(('x', 'Parenthesis', cx.data(d, cx.X), d))
    return out


def ask(rep, cx, m, dt, V, w, d):
    F = cx.F
    key = '%s:%s:%s' % (m, d[0] if d[0] != 'x' else d[1], w[0] + (':' + w[1][0] if w[0] == 'Enum' else ''))
    what = 'asking %s for %s' % (say(d), say(w))
    x = cx.data(d[:3], V)
    if dt[1].endswith('::ValueDeserializer') or dt != ('adt', EXP, ()):
        x = ('agg', 'adt', dt[1], 0, (x,))
    try:
        xs, E = cx.run(HD + 'want', None, {'D': dt}, args=lambda E: [cx.want(w), x], hooks=DeH)
    except Limit as e:
        rep.oblige(False, key, '%s: %s' % (what, e))
        return
    rep.count('requests')
    rep.oblige(bool(xs), key + ':paths', '%s never returns' % what)
    for st, v in xs:
        failed = {e[1] for e in st.mon if e[0] == 'failed'}
        isok = v[0] == 'agg' and v[2] == RES and v[3] == 0

        def meets(shut):
            try:
                want = getattr(Spec(cx, m, failed, shut), m)(w, d)
            except Fail as e:
                if v[0] == 'agg' and v[2] == RES and v[3] == 1 and (e.e is None or contains(v, e.e)):
                    return None
                return 'does not report %s but gives %s' % ('the error of a part' if e.e else 'that the data does not fit', str(v)[:300])
            except Skip:
                return None
            got = cx.got(E.full(st, v[4][0])) if isok else None
            return None if isok and got == want else 'gives %s and not %s' % (str(got) if isok else 'an error', str(want))
        bad = meets(False)
        k = key
        if bad and d[:2] == ('x', 'Parenthesis') and meets(True) is None:
            k = 'expr:parenthesis'            # what is inside is not looked at
        rep.oblige(not bad, k, '%s %s' % (what, bad))


def say(d):
    return repr(d)
