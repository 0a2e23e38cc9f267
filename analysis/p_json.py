"""P27: the JSON form of documents, and the conversion between expressions and values."""
import itertools
from p_de import *

MAPS = ('IndexMap', 'VecMap', 'BTreeMap', 'HashMap')


class JsonH(DeH):
    """Bodies which are no terms are opaque: their JSON form is an event. Entries of maps are places in the map."""
    def ucall(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        R = lambda v: E.resume(st, c.ret, v)
        place = lambda m, i: m[:3] + (m[3] + ((None, i), (None, 1)),)

        def slot(x):
            while x[0] == 'slot' and E.load(st, x)[0] == 'slot':
                x = E.load(st, x)
            return x
        if n == 'into_json_spec' or n in ('from', 'into') and a and E.deref(st, a[0])[0] == 'sym' and str(E.deref(st, a[0])[1]).startswith('body'):
            x = E.full(st, E.deref(st, a[0]))
            if x[0] == 'sym':
                return R(('agg', 'got', 'json', None, (x,)))
        if n in ('into_json_spec', 'from', 'into') and len(a) == 1:
            x = E.full(st, E.deref(st, a[0]))
            if x[:3] == ('agg', 'got', 'json') or x[:3] == ('agg', 'adt', EXP) and (n == 'into_json_spec' or E.strip(c.targs[0])[0] != 'adt'):
                return R(x)                   # already an expression, converted as an item of an unnamed type
        if n == 'entry' and any(m + '::entry' in np for m in MAPS):
            m = slot(a[0])
            xs = E.full(st, m)
            k = E.full(st, a[1])
            i = self.mapidx(E, st, xs[4], k)
            return R(('agg', 'adt', self.entry_id(E, np), self.occ(E, np) if i is not None else 1 - self.occ(E, np),
                      (('agg', 'entry', None, None, (m, k, ('const', 'int', -1 if i is None else i))),)))
        if a and a[0][0] in ('agg', 'slot') and ('Entry' in np):
            e = E.deref(st, a[0]) if a[0][0] == 'slot' else a[0]
            x = e[4][0] if e[0] == 'agg' and e[1] == 'adt' and len(e[4]) == 1 else e
            if x[:2] == ('agg', 'entry'):
                m, k, i = x[4]
                i = i[2]

                def put(v):
                    xs = E.full(st, m)[4]
                    E.store(st, m, arr(xs + (tup(k, v),)))
                    return place(m, len(xs))
                if n in ('into_mut', 'get_mut'):
                    return R(place(m, i))
                if n == 'get':
                    return R(E.full(st, place(m, i)))
                if n == 'key':
                    return R(k)
                if n == 'insert' and i >= 0:
                    old = E.full(st, place(m, i))
                    E.store(st, place(m, i), E.full(st, a[1]))
                    return R(old)
                if n == 'insert':
                    return R(put(E.full(st, a[1])))
                if n == 'or_insert':
                    return R(place(m, i) if i >= 0 else put(E.full(st, a[1])))
                if n in ('or_insert_with', 'or_default'):
                    if i >= 0:
                        return R(place(m, i))
                    if n == 'or_insert_with':
                        return E.invoke(st, a[1], [], ('k', 'json_put', (m, k), c.ret), c.line, c.site)
                if n == 'and_modify' and i < 0:
                    return R(e)
        return DeH.ucall(self, E, st, c)

    def entry_id(self, E, np):
        return next(x for x in list(E.F.xadts) + list(E.F.adts) if x.startswith('indexmap') and x.endswith('::Entry'))

    def occ(self, E, np):
        vs = [v['name'] for v in E.F.adt(self.entry_id(E, np))['variants']]
        return vs.index('Occupied')


@cont('json_put')
def k_json_put(E, st, data, ret, v):
    m, k = data
    xs = E.full(st, m)[4]
    E.store(st, m, arr(xs + (tup(k, v),)))
    return E.resume(st, ret, m[:3] + (m[3] + ((None, len(xs)), (None, 1)),))


def form(cx, items):
    """The JSON form of a sequence of structures."""
    out = {}
    for s in items:
        if s[0] == 'attr':
            out[s[1]] = ('expr', s[2])
            continue
        node = out
        path = (s[1],) + s[2]
        for p in path[:-1]:
            node = node.setdefault(p, ('map', {}))[1]
        node.setdefault(path[-1], ('blocks', []))[1].append(s[3])

    def term(n):
        if n[0] == 'expr':
            return ('sym', n[1])
        if n[0] == 'map':
            return obj(n[1])
        xs = tuple(('agg', 'got', 'json', None, (('sym', b),)) if isinstance(b, str) else form(cx, b) for b in n[1])
        return xs[0] if len(xs) == 1 else cx.X('Array', arr(xs))

    def obj(m):
        return cx.X('Object', arr(tuple(tup(('key', k), term(v)) for k, v in m.items())))
    return obj(out)


def mixed(items):
    """Bodies which no schema allows: an attribute and a block, or blocks with and without further labels, of one name."""
    kinds = {}
    for s in items:
        if s[0] == 'attr':
            if kinds.setdefault((s[1],), 'attr' + str(id(s))) != 'attr' + str(id(s)):
                return True
            continue
        path = (s[1],) + s[2]
        for i in range(1, len(path) + 1):
            k = 'map' if i < len(path) else 'blocks'
            if kinds.setdefault(path[:i], k) != k:
                return True
    return False


def keys(cx, x):
    """Object keys by their text."""
    if x[0] != 'agg':
        return x
    if x[1] == 'adt' and x[2].split('::')[-1] == 'ObjectKey':
        y = x[4][0]
        while y[0] == 'agg' and y[1] == 'adt' and len(y[4]) == 1 and cx.F.vname(y[2], y[3]) in ('Identifier', 'Ident', 'InternalString', 'String'):
            y = y[4][0]
        if y[0] == 'const':
            return ('key', y[2])
    return x[:4] + (tuple(keys(cx, y) for y in x[4]),)


def bodies():
    A, B = lambda n: ('attr', n, 'e:' + n), lambda n, ls, b: ('block', n, ls, b)
    short = [A('a'), A('b'), B('x', (), 'body1'), B('x', (), 'body2'), B('x', ('l',), 'body1'), B('x', ('l',), 'body2'), B('x', ('k',), 'body3'),
             B('x', ('l', 'm'), 'body1'), B('x', ('l', 'm'), 'body2'), B('x', ('l', 'n'), 'body4'), B('x', ('k', 'm'), 'body5'), B('y', (), 'body6'), B('y', ('l',), 'body6')]
    for k in range(4):
        for t in itertools.product(short, repeat=k):
            if not mixed(t):
                yield t
    long = [A('a'), B('x', ('l',), 'body1'), B('x', ('k',), 'body2'), B('x', ('l',), 'body3'), B('y', (), 'body4'), B('y', (), 'body5')]
    for t in itertools.permutations(long, 5):
        yield t
    deep = [B('x', tuple('lmnop'[:k]), 'body%d' % i) for k in (3, 4, 5) for i in (1, 2)] + [B('x', tuple('lmqop'[:k]), 'body3') for k in (3, 4, 5)]
    for k in (1, 2, 3):
        for t in itertools.product(deep, repeat=k):
            if not mixed(t):
                yield t
    for b in ((A('c'),), (B('z', (), 'body1'), A('c'), B('z', (), 'body2')), (B('z', ('l',), 'body1'),)):
        yield (B('x', (), b),)
        yield (A('a'), B('x', ('l',), b), B('x', ('l',), b))


def run(rep):
    F = load(serde=True)
    cx = DeCtx(F, rep)
    rep.rule('In the JSON form of a body every attribute stands under its name and every block under its name and labels; blocks of the same name and '
             'labels form a list in their order, a single one is an object, and other entries are in the order they first appear.')
    S = lambda n, **k: struct(F, cx.adt(n), **k)
    V = lambda n, m, *f: variant(F, cx.adt(n), m, *f)
    B = lambda ss: S('Body', **{'0': arr(tuple(ss))})

    def label(s, text):
        return V('BlockLabel', 'String', cstr(s)) if text else V('BlockLabel', 'Identifier', cx.ident(s))

    def structure(s, text):
        if s[0] == 'attr':
            return V('Structure', 'Attribute', S('Attribute', key=cx.ident(s[1]), expr=('sym', s[2])))
        b = ('sym', s[3]) if isinstance(s[3], str) else B(structure(x, text) for x in s[3])
        return V('Structure', 'Block', S('Block', identifier=cx.ident(s[1]), labels=arr(tuple(label(l, text == (i % 2 == 0)) for i, l in enumerate(s[2]))), body=b))

    im = [i for i in F.impls if (i['traitid'] or '').endswith('::IntoJsonSpec') and i['selfty'] == ('adt', cx.adt('Body')['id'], ())]
    tr = im and im[0]['traitid']
    f = tr and [g for g in F.fns if g == tr + '::into_json_spec' or g.endswith('::into_json_spec') and F.fns[g].get('lty', [None])[0] == ('adt', cx.adt('Expression')['id'], ())]
    rep.oblige(bool(f), 'anchor:into_json_spec', 'the JSON form of bodies was not found (anchor)')
    if not f:
        return
    SELF = ('adt', cx.adt('Body')['id'], ())
    for count, t in enumerate(bodies()):
        for text in (False, True):
            if len(t) > 2 and text != (count % 2 == 0):
                continue                      # labels of either kind in turns
            if text and not any(s[0] == 'block' and s[2] for s in t):
                continue
            x = B(structure(s, text) for s in t)
            what = ' '.join(s[1] if s[0] == 'attr' else '%s(%s){%s}' % (s[1], ','.join(s[2]), s[3]) for s in t)
            key = 'body:%s' % ('labels' if any(s[0] == 'block' and s[2] for s in t) else 'blocks' if any(s[0] == 'block' for s in t) else 'attributes')
            try:
                xs, E = cx.run(f[0], None, {'Self': SELF}, args=lambda E: [x], hooks=JsonH)
            except Limit as e:
                rep.oblige(False, key, 'the body %s: %s' % (what, e))
                continue
            rep.count('bodies')
            rep.oblige(bool(xs), key + ':paths', 'the JSON form of the body %s: no result' % what)
            want = form(cx, t)
            for st, v in xs:
                got = keys(cx, norm(E.full(st, v)))
                rep.oblige(got == norm(want), key, 'the JSON form of the body %s is %s and not %s' % (what, str(got)[:600], str(want)[:600]))
    rep.floor('bodies', 1000)
    convert(rep, cx)


class ConvH(JsonH):
    """Conversions of parts are opaque."""
    def ucall(self, E, st, c):
        n = c.np.split('::')[-1]
        if n in ('from', 'into') and c.args and len(c.targs) >= 2:
            x = E.full(st, E.deref(st, c.args[0]))
            to = E.strip(c.targs[0 if n == 'from' else 1])
            if x[0] == 'sym' and to[0] == 'adt' and to[1] in (VAL, EXP):
                return E.resume(st, c.ret, ('agg', 'got', 'to', None, (x,)))
        return JsonH.ucall(self, E, st, c)


def convert(rep, cx):
    """Expressions as values and values as expressions."""
    F = cx.F
    rep.rule('A value as an expression and a plain expression as a value is the same data: every element and entry once and in order; parentheses are '
             'left out, a template gives its text and any other expression its interpolation.')
    L = lambda i: ('leaf', 'x%d' % i)
    data = [('null',), ('bool', True), ('bool', False), ('num', 'u', 7), ('num', 'u', 2 ** 64 - 1), ('num', 'i', -7), ('num', 'f', 'f'), ('str', 'abc'), ('str', ''),
            ('arr', []), ('arr', [L(1)]), ('arr', [L(1), L(2), L(3)]), ('arr', [('arr', [L(1)]), ('null',), L(2)]), ('obj', []), ('obj', [('a', L(1))]),
            ('obj', [('b', L(1)), ('a', L(2)), ('c', L(3))]), ('obj', [('a', ('obj', [('a', L(1)), ('b', ('arr', []))])), ('b', ('str', 'x'))])]
    ways = [(EXP, VAL, cx.X, cx.V, data + [('obj', [(('str', 'k'), L(1)), ('b', L(2))])] + others(cx)), (VAL, EXP, cx.V, cx.X, data)]
    for src_, dst, A, B, ds in ways:
        f = [g['id'] for im in F.impls if im['traitid'] == 'core::convert::From' and im['selfty'] == ('adt', dst, ()) and im['targty'][1:] == (('adt', src_, ()),)
             for g in im['items'] if g['kind'] == 'fn' and g['name'] == 'from']
        name = '%s of %s' % (dst.split('::')[-1], src_.split('::')[-1])
        rep.oblige(len(f) == 1, 'anchor:' + name, 'the conversion was not found: %s (anchor)' % name)
        if len(f) != 1:
            continue
        for d in ds:
            def conv(d):
                if d[0] == 'leaf':
                    return ('agg', 'got', 'to', None, (('sym', d[1]),))
                if d[0] == 'arr':
                    return B('Array', arr(tuple(map(conv, d[1]))))
                if d[0] == 'obj':
                    ks = lambda k: k if isinstance(k, str) else k[1]
                    return B('Object', arr(tuple(tup(cstr(ks(k)) if dst == VAL else ('key', ks(k)), conv(x)) for k, x in d[1])))
                if d[0] == 'x':
                    if d[1] == 'Parenthesis':
                        return conv(d[3])
                    if d[1] == 'TemplateExpr':
                        return B('String', ('agg', 'got', 'template', None, (d[2],)))
                    return B('String', ('agg', 'got', 'interpolated', None, (cx.data(d[:3], A),)))
                return cx.data(d, B)
            key = 'convert:%s:%s' % (name, d[0] if d[0] != 'x' else d[1])
            x = cx.data(d[:3], A)
            try:
                xs, E = cx.run(f[0], None, {}, args=lambda E: [x], hooks=ConvH)
            except Limit as e:
                rep.oblige(False, key, '%s: %s' % (say(d), e))
                continue
            rep.count('conversions')
            xs = [(st, v) for st, v in xs if not any(e[0] == 'failed' for e in st.mon)]
            rep.oblige(bool(xs), key + ':paths', '%s %s: no result' % (name, say(d)))
            want = conv(d)
            for st, v in xs:
                got = keys(cx, norm(E.full(st, v)))
                rep.oblige(got == norm(want), key, 'the %s %s is %s and not %s' % (name, say(d)[:200], str(got)[:400], str(want)[:400]))
    rep.floor('conversions', 40)
