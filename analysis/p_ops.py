"""P06 operator precedence and spelling; P13 evaluation of operators."""
from common import *

# HCL native syntax specification, section "Operations": binding strength, weakest first
LEVELS = [['Or'], ['And'], ['Eq', 'NotEq'], ['Less', 'LessEq', 'Greater', 'GreaterEq'], ['Plus', 'Minus'],
          ['Mul', 'Div', 'Mod']]
SPELL = {'Or': '||', 'And': '&&', 'Eq': '==', 'NotEq': '!=', 'Less': '<', 'LessEq': '<=', 'Greater': '>',
         'GreaterEq': '>=', 'Plus': '+', 'Minus': '-', 'Mul': '*', 'Div': '/', 'Mod': '%'}
USPELL = {'Neg': '-', 'Not': '!'}


def only(rep, xs, key, what):
    """All results agree on one value."""
    vals = set(v for _, v in xs)
    rep.oblige(len(vals) == 1, key, '%s does not have one definite result (%d)' % (what, len(vals)))
    return next(iter(vals)) if len(vals) == 1 else None


def run(rep):
    F = load()
    rep.rule('Every operator token is infix with the precedence order of the HCL specification, left-associative, above '
             'the minimal precedence, so that no operand can be left over.')
    rep.rule('Combining an operator with its operands keeps operator, left and right operand in their roles.')
    rep.rule('as_str, Display, FromStr and serialization of an operator use its one spelling.')
    B, U = adt_named(F, 'hcl_primitives', 'BinaryOperator'), adt_named(F, 'hcl_primitives', 'UnaryOperator')
    names = [v['name'] for v in B['variants']]
    rep.oblige(sorted(names) == sorted(SPELL), 'variants', 'the binary operators are %s' % names)
    tok = adt_named(F, 'hcl_edit', 'BinaryOpToken')
    pim = [im for im in F.impls if im['traitid'] and im['traitid'].endswith('::PrattParser')]
    rep.oblige(len(pim) == 1 and tok is not None, 'pratt', 'the operator precedence parser was not found (anchor)')
    if len(pim) != 1 or tok is None:
        return
    item = {it['id'].split('::')[-1]: it['id'] for it in pim[0]['items']}
    dec = [a for a in F.adts.values() if a['id'] == 'hcl_edit::repr::Decorated'][0]
    opi = [i for i, v in enumerate(tok['variants']) if v['fields'] and v['fields'][0]['ty'][0] == 'adt'
           and v['fields'][0]['ty'][1].endswith('::Decorated')][0]
    exi = [i for i in range(len(tok['variants'])) if i != opi][0]

    def optok(n):
        d = struct(F, dec, value=variant(F, B, n), decor=('sym', 'decor'), span=('sym', 'span'))
        return ('agg', 'adt', tok['id'], opi, (d,))

    prec = {}
    for n in names:
        xs, E = results(F, item['query'], [('sym', 'self'), optok(n)])
        v = only(rep, xs, 'query:' + n, 'the binding of operator %s' % n)
        rep.count('operators')
        good = False
        if v is not None and v[0] == 'agg' and v[3] == 0:
            a = v[4][0]
            if a[0] == 'agg' and a[2].endswith('::Affix') and F.vname(a[2], a[3]) == 'Infix':
                p, s = a[4]
                if p[0] == 'agg' and p[4][0][0] == 'const' and s[0] == 'agg':
                    prec[n] = p[4][0][2]
                    good = True
                    rep.oblige(F.vname(s[2], s[3]) == 'Left', 'assoc:' + n,
                               'operator %s (%s) is not left-associative: in a chain of operators of its level operands are '
                               'grouped wrongly or left over' % (n, SPELL.get(n)))
                    rep.oblige(prec[n] >= 1, 'min:' + n, 'operator %s has the minimal precedence; the parser stops in front '
                               'of it' % n)
        rep.oblige(good, 'infix:' + n, 'operator %s is not reported as an infix operator with a constant precedence' % n)
    # the public table
    pf = find_fn(F, 'hcl_primitives', 'BinaryOperator::precedence')
    for n in names:
        if pf is None:
            rep.oblige(False, 'precedence', 'BinaryOperator::precedence was not found (anchor)')
            break
        xs, E = results(F, pf, [variant(F, B, n)])
        v = only(rep, xs, 'prec:' + n, 'the precedence of operator %s' % n)
        rep.oblige(v is not None and v[0] == 'const', 'prec:' + n, 'the precedence of %s is not a constant' % n)
        if v is not None and v[0] == 'const':
            for what, got in (('parser', prec), ('public', None)):
                pass
            prec.setdefault(('pub', n), v[2])
    for pre in ('', 'pub'):
        g = lambda n: prec.get(('pub', n) if pre else n)
        for i, lv in enumerate(LEVELS):
            for n in lv:
                for j, lw in enumerate(LEVELS):
                    for m in lw:
                        if g(n) is None or g(m) is None or n >= m and i == j:
                            continue
                        want = (i > j) - (i < j)
                        got = (g(n) > g(m)) - (g(n) < g(m))
                        rep.oblige(want == got, 'order:%s%s:%s' % (pre, n, m),
                                   '%s (%s) must bind %s %s (%s)%s' % (
                                       n, SPELL[n], {1: 'tighter than', -1: 'weaker than', 0: 'as tight as'}[want], m,
                                       SPELL[m], ' in the public precedence table' if pre else ''))
    # operand tokens and combination
    x = ('agg', 'adt', tok['id'], exi, (('sym', 'e'),))
    xs, E = results(F, item['query'], [('sym', 'self'), x])
    v = only(rep, xs, 'query:operand', 'the binding of an operand')
    rep.oblige(v is not None and v[0] == 'agg' and v[3] == 0 and F.vname(v[4][0][2], v[4][0][3]) == 'Nilfix',
               'nilfix', 'an operand is not reported as an operand')
    xs, E = results(F, item['primary'], [('sym', 'self'), x])
    v = only(rep, xs, 'primary', 'the expression of an operand')
    rep.oblige(v == ok(('sym', 'e')), 'primary', 'an operand does not become the expression itself')
    ety = ('adt', 'hcl_edit::expr::Expression', ())
    bop = adt_named(F, 'hcl_edit', 'BinaryOp')
    fnames = [f['name'] for f in bop['variants'][0]['fields']]

    def setup(E):
        return [('sym', 'self'), E.sym('l', ety), ('agg', 'adt', tok['id'], opi, (E.sym('op', tok['variants'][opi]['fields'][0]['ty']),)),
                E.sym('r', ety)]
    xs, E = results(F, item['infix'], [], setup=setup, call=spans)
    rep.oblige(len(xs) >= 1, 'infix', 'the combination of an operator and its operands has no result')
    for st, v in xs:
        rep.count('combination paths')
        if v[0] == 'agg' and v[3] == 1:
            rep.oblige(False, 'infix:err', 'combining an operator with its operands fails')
            continue
        y = v
        while y[0] == 'agg' and y[2] != bop['id'] and y[4]:
            y = y[4][0]
        got = dict(zip(fnames, y[4])) if y[0] == 'agg' and y[2] == bop['id'] else {}
        for f, w in (('lhs_expr', 'l'), ('operator', 'op'), ('rhs_expr', 'r')):
            rep.oblige(got.get(f) == ('sym', w), 'infix:' + f, 'the %s of a combined operation is %s' % (
                f, E.show(got.get(f)) if got.get(f) else 'missing'))
    spelling(rep, F, B, SPELL)
    spelling(rep, F, U, USPELL)
    rep.floor('operators', 13)
    rep.floor('spellings', 15)


def spans(E, st, c):
    if c.trait in ('hcl_edit::repr::SetSpan',) and c.np.endswith('set_span'):
        return E.resume(st, c.ret, UNIT)
    return None


def spelling(rep, F, A, table):
    ty = ('adt', A['id'], ())
    n0 = A['id'].split('::')[-1]
    asstr = find_fn(F, 'hcl_primitives', n0 + '::as_str')
    disp = impl_fn(F, 'fmt::Display', ty, 'fmt')
    frs = impl_fn(F, 'FromStr', ty, 'from_str')
    ser = impl_fn(F, 'Serialize', ty, 'serialize')
    for k, f in (('as_str', asstr), ('Display', disp), ('FromStr', frs), ('Serialize', ser)):
        rep.oblige(f is not None, n0 + ':' + k, '%s of %s was not found (anchor)' % (k, n0))
    for n, s in table.items():
        rep.count('spellings')
        v = variant(F, A, n)
        if asstr:
            xs, E = results(F, asstr, [v])
            r = only(rep, xs, '%s:as_str:%s' % (n0, n), 'the spelling of %s' % n)
            rep.oblige(r == cstr(s), '%s:as_str:%s' % (n0, n), '%s is spelled %s instead of %s' % (n, E.show(r) if r else '?', s))
        if frs:
            xs, E = results(F, frs, [cstr(s)])
            r = only(rep, xs, '%s:parse:%s' % (n0, n), 'parsing %s' % s)
            rep.oblige(r == ok(v), '%s:parse:%s' % (n0, n), '%s is not parsed as %s' % (s, n))
        for f in (disp, ser):
            if not f:
                continue

            def call(E, st, c):
                m = c.np.split('::')[-1]
                if m in ('serialize_str', 'collect_str'):
                    if m == 'collect_str':
                        r = E.H.display(E, st, E.full(st, c.args[1]), None, c.args[0], c.ret)
                        if r is not None:
                            return r
                    return E.H.emit(E, st, c.args[0], E.H.toks_of(E, st, c.args[1]), c.ret)
                return None
            xs, E = outputs(F, f, [v, ('sym', 'out')], call=call)
            got = set(st.mon for st, r in xs)
            rep.oblige(got == {(('lit', s),)}, '%s:write:%s:%s' % (n0, F.fnname(f).split('::')[-1], n),
                       '%s of %s writes %s instead of %s' % (F.fnname(f), n, sorted(got), s))
