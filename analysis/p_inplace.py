"""P14: in-place evaluation visits everything, reports every error and leaves the values behind."""
from p_eval import *
from p_tpl import B


class InpH(EvalH):
    boxslots = True

    def ucall(self, E, st, c):
        np = c.np
        if np in ('convert::From::from', 'convert::Into::into') and c.targs:
            ts = [E.strip(t) for t in c.targs]
            if ts == [('adt', EXP, ()), ('adt', VAL, ())][::1 if np.startswith('convert::From') else -1]:
                return E.resume(st, c.ret, ('op', 'expr of', None, E.full(st, c.args[0])))
        return EvalH.ucall(self, E, st, c)


def run(rep):
    F = load()
    cx = Ctx(F, rep)
    rep.rule('On every path every part that does not depend on loop variables is evaluated in place whatever happens to the others, '
             'the result is an error exactly if one of them failed and holds the errors of all of them, and each part is replaced by '
             'its own result.')
    V, X = cx.V, cx.X
    ets = {n: ('adt', EXP, ()) for n in ["e%d'" % i for i in range(1, 7)]}

    def sy(n):
        return ('sym', n)

    def done(n):
        return ('sym', n + "'")

    def go(key, what, fid, term, parts, after=None, ev=None, answers={}, subst=None, extra=None, symty={}, kw={}):
        """parts: the names evaluated in place; after(sub): the term when sub maps names to what they became;
        ev(ask): the value which replaces the whole, if any."""
        if not fid:
            return
        an = {n + "'": (('sym', 'v' + n),) for n in parts}
        an.update(answers)
        try:
            xs, E = cx.run(fid, None, subst, args=lambda E: [('slot', 'self', 0, ()), cx.ctx], env={('self', 0): term}, hooks=InpH,
                           answers=an, symty=dict(ets, **symty), **kw)
        except Limit as e:
            rep.oblige(False, key, '%s: %s' % (what, e))
            return
        seen = set()

        def bad(st, v, msg):
            if msg not in seen:
                seen.add(msg)
                rep.oblige(False, '%s:%s' % (key, msg[:80]), '%s: %s (%s)' % (what, msg, cx.path(E, st)))
        for st, v in xs:
            inp = {}
            wrong = None
            for m in st.mon:
                if m[0] == 'inp':
                    if m[1] in inp:
                        wrong = '%s is evaluated in place twice' % m[1]
                    elif m[2] != ():
                        wrong = '%s is evaluated in another scope' % m[1]
                    inp[m[1]] = m[3]
            if wrong:
                bad(st, v, wrong)
                continue
            o = Oracle(cx, st.mon)
            want = list(parts)
            failed = []
            if extra:
                try:
                    want += extra(o)
                except Fail as e:
                    want, failed = None, [e.e]
                except Bad as e:
                    bad(st, v, str(e))
                    continue
            for n in want or ():
                if n not in inp:
                    bad(st, v, '%s is not evaluated' % n)
            for n in inp:
                if want is None or n not in want:
                    bad(st, v, '%s is evaluated although it must not be' % n)
            if want is not None and set(want) != set(inp):
                continue
            failed += [x[4][0] for x in inp.values() if x[3] == 1]
            isok = v[0] == 'agg' and v[2] == RES and v[3] == 0
            final = st.env.get(('self', 0))
            final = behind(st, E.full(st, final))
            sub = {n: (done(n) if x[3] == 0 else sy(n)) for n, x in inp.items()}
            if want is None:
                rep.oblige(not isok, key + ':cond', what + ': an error is ignored')
                if isok:
                    continue
                if failed[0] is not None and not contains(v, failed[0]):
                    bad(st, v, 'the error of a nested evaluation is replaced')
                continue
            if failed:
                if isok:
                    bad(st, v, 'it succeeds although a part failed')
                    continue
                es = errs(cx, v)
                fl = [errs_of(cx, f) for f in failed]
                if es is None or sorted(map(repr, es)) != sorted(repr(y) for f in fl for y in f):
                    bad(st, v, 'it reports %s and not the errors of all failed parts' % (E.show(v),))
                    continue
                if after and final != after(sub, o):
                    bad(st, v, 'it becomes %s and not %s' % (E.show(final), E.show(after(sub, o))))
                    continue
            else:
                if ev:
                    try:
                        x = ev(o)
                        if not isok:
                            bad(st, v, 'it fails although everything evaluates')
                            continue
                        if norm(final) != norm(('op', 'expr of', None, x)):
                            bad(st, v, 'it becomes %s and not its value %s' % (E.show(final), E.show(x)))
                            continue
                    except Fail as e:
                        if isok:
                            bad(st, v, 'it succeeds although its evaluation fails')
                            continue
                        if e.e is not None and not contains(v, e.e):
                            bad(st, v, 'the error of the evaluation is replaced')
                            continue
                    except Bad as e:
                        bad(st, v, str(e))
                        continue
                else:
                    if not isok:
                        bad(st, v, 'it fails although everything evaluates')
                        continue
                    if final != after(sub, o):
                        bad(st, v, 'it becomes %s and not %s' % (E.show(final), E.show(after(sub, o))))
                        continue
            if not isok and errs(cx, v) == []:
                bad(st, v, 'it fails without an error')
                continue
            rep.oblige(True, key, '')
        rep.count('in-place rules')
        rep.oblige(len(xs) > 0, key + ':paths', what + ' has no result')
    inp = lambda n: cx.impls.get(n, {}).get('evaluate_in_place')

    def fid(n):
        f = inp(n)
        rep.oblige(f is not None, 'anchor:' + n, 'the in-place evaluation of %s was not found (anchor)' % n)
        return f
    N = lambda *n: list(n)
    st = lambda n, **k: struct(F, cx.adt(n), **k)
    E1, E2, E3 = sy('e1'), sy('e2'), sy('e3')
    g = lambda sub, n: sub.get(n, sy(n))
    ex = fid('Expression')
    # leaves
    for nm, x in (('null', X('Null')), ('bool', X('Bool', cbool(True))), ('number', X('Number', ('sym', 'n1'))), ('string', X('String', ('sym', 's')))):
        go('leaf:' + nm, 'a literal', ex, x, [], after=lambda sub, o, x=x: x)
    var = X('Variable', ('agg', 'adt', cx.adt('Variable')['id'], 0, (ident_(cx, 'x'),)))
    go('leaf:var', 'a variable', ex, var, [], after=lambda sub, o: var, ev=lambda ask: ask.look('rootvars', cstr('x')))
    # collections
    for n in range(0, 4):
        names = ['e%d' % (i + 1) for i in range(n)]
        go('array:%d' % n, 'an array of %d' % n, ex, X('Array', arr(tuple(map(sy, names)))), names,
           after=lambda sub, o: X('Array', arr(tuple(g(sub, x) for x in names))),
           ev=lambda ask: V('Array', arr(tuple(ask(x + "'") for x in names))))
    ok_ = cx.adt('ObjectKey')
    kI, kE = variant(F, ok_, 'Identifier', ident_(cx, 'a')), lambda t: variant(F, ok_, 'Expression', t)
    keys_ = {"e1'": (V('String', cstr('k')), V('Null'))}
    obj = lambda sub: X('Object', arr((tup(kE(g(sub, 'e1')), g(sub, 'e2')), tup(kI, g(sub, 'e3')))))
    go('object', 'an object', ex, obj({}), N('e1', 'e2', 'e3'), after=lambda sub, o: obj(sub), answers=keys_,
       ev=lambda ask: V('Object', arr((tup(keystr(cx, ask("e1'")), ask("e2'")), tup(cstr('a'), ask("e3'"))))))
    # traversal, function call
    T = cx.adt('TraversalOperator')
    tr = lambda sub: X('Traversal', st('Traversal', expr=('sym', 'base'), operators=arr((variant(F, T, 'GetAttr', ident_(cx, 'k')),
                       variant(F, T, 'Index', g(sub, 'e1')), variant(F, T, 'Index', g(sub, 'e2'))))))
    go('traversal', 'a traversal', inp('Traversal'), tr({})[4][0], N('e1', 'e2'), after=lambda sub, o: tr(sub)[4][0])
    name = st('FuncName', namespace=arr(()), name=ident_(cx, 'f'))
    fc = lambda sub, x=False, n=2: st('FuncCall', name=name, args=arr(tuple(g(sub, 'e%d' % (i + 1)) for i in range(n))), expand_final=cbool(x))
    for x in (False, True):
        for n in (1, 2, 3):
            go('call:%d%s' % (n, x), 'a function call%s' % (' with an expanded argument' if x else ''), fid('FuncCall'), fc({}, x, n),
               ['e%d' % (i + 1) for i in range(n)], after=lambda sub, o: fc(sub, x, n))
    # operations
    u = lambda sub: st('UnaryOp', operator=('sym', 'op'), expr=g(sub, 'e1'))
    b = lambda sub: st('BinaryOp', lhs_expr=g(sub, 'e1'), operator=('sym', 'op'), rhs_expr=g(sub, 'e2'))
    O = cx.adt('Operation')
    for wr, f in ((lambda x, v: x, None), (lambda x, v: variant(F, O, v, x), fid('Operation'))):
        go('unary', 'a unary operation', f or fid('UnaryOp'), wr(u({}), 'Unary'), N('e1'), after=lambda sub, o: wr(u(sub), 'Unary'))
        go('binary', 'a binary operation', f or fid('BinaryOp'), wr(b({}), 'Binary'), N('e1', 'e2'), after=lambda sub, o: wr(b(sub), 'Binary'))
    # parentheses and the expression around the other kinds
    go('paren', 'parentheses', ex, X('Parenthesis', E1), N('e1'), after=lambda sub, o: X('Parenthesis', g(sub, 'e1')), ev=lambda ask: ask("e1'"))
    # conditionals: the condition and the chosen branch
    bools = (V('Bool', cbool(True)), V('Bool', cbool(False)), V('Null'))
    cond = lambda c, sub: st('Conditional', cond_expr=c, true_expr=g(sub, 'e2'), false_expr=g(sub, 'e3'))

    def chosen(ask):
        c = ask('e1')
        if cx.vname(c) != 'Bool':
            raise Fail()
        return ['e2' if c[4][0][2] else 'e3']
    go('conditional', 'a conditional', fid('Conditional'), cond(E1, {}), [], extra=chosen, answers={'e1': bools},
       after=lambda sub, o: cond(X('Bool', o('e1')[4][0]), sub))
    # for expressions: only the collection is independent of the loop variables
    fe = lambda sub: st('ForExpr', key_var=NONE, value_var=ident_(cx, 'v'), collection_expr=g(sub, 'e1'), key_expr=some(E2), value_expr=E3,
                        grouping=cbool(False), cond_expr=some(('sym', 'e4')))
    go('for', 'a for expression', fid('ForExpr'), fe({}), N('e1'), after=lambda sub, o: fe(sub))
    # the same parts inside an expression, which then becomes its value
    def cval(ask):
        return ask(chosen(ask)[0] + "'")
    go('expr conditional', 'a conditional expression', ex, X('Conditional', cond(E1, {})), [], extra=chosen, answers={'e1': bools},
       after=lambda sub, o: X('Conditional', cond(X('Bool', o('e1')[4][0]), sub)), ev=cval)
    uo = adt_named(F, 'hcl_primitives', 'UnaryOperator')
    bo_ = adt_named(F, 'hcl_primitives', 'BinaryOperator')
    un = lambda sub: X('Operation', variant(F, O, 'Unary', st('UnaryOp', operator=variant(F, uo, 'Not'), expr=g(sub, 'e1'))))

    def not_(ask):
        v = ask("e1'")
        if cx.vname(v) != 'Bool':
            raise Fail()
        return V('Bool', cbool(not v[4][0][2]))
    go('expr unary', 'a unary operation expression', ex, un({}), N('e1'), after=lambda sub, o: un(sub), ev=not_, answers={"e1'": bools})
    bi = lambda sub: X('Operation', variant(F, O, 'Binary', st('BinaryOp', lhs_expr=g(sub, 'e1'), operator=variant(F, bo_, 'And'), rhs_expr=g(sub, 'e2'))))

    def and_(ask):
        v, w = ask("e1'"), ask("e2'")
        if cx.vname(v) != 'Bool' or cx.vname(w) != 'Bool':
            raise Fail()
        return V('Bool', cbool(v[4][0][2] and w[4][0][2]))
    go('expr binary', 'a binary operation expression', ex, bi({}), N('e1', 'e2'), after=lambda sub, o: bi(sub), ev=and_,
       answers={"e1'": bools, "e2'": bools})
    go('expr for', 'a for expression', ex, X('ForExpr', fe({})), N('e1'), after=lambda sub, o: X('ForExpr', fe(sub)),
       answers={"e1'": (V('Array', arr(())), V('Null'))}, ev=lambda ask: V('Object', arr(tuple(scopes(cx, ask("e1'"), None, 'v')))))
    cl = lambda sub: X('FuncCall', fc(sub))
    rf = struct(F, cx.adt('FuncDef'), func=('sym', 'fn'), params=arr(()), variadic_param=some(variant(F, cx.adt('ParamType'), 'Any')))

    def called(ask):
        ask.look('rootfuncs', name)
        w = (ask("e1'"), ask("e2'"))
        if ask.called('fn') != (struct(F, cx.adt('FuncArgs'), values=arr(w), pos_args_len=cint(0)),):
            raise Bad('the function is called with the wrong arguments')
        return ('sym', 'called')
    go('expr call', 'a function call expression', ex, cl({}), N('e1', 'e2'), after=lambda sub, o: cl(sub), ev=called, kw={'rootfunc': rf})
    t1 = lambda sub: X('Traversal', st('Traversal', expr=('sym', 'base'), operators=arr((variant(F, T, 'Index', g(sub, 'e1')),))))

    def at0(ask):
        b_, i = ask('base'), ask("e1'")
        if cx.vname(b_) != 'Array' or cx.vname(i) != 'Number':
            raise Fail()
        return b_[4][0][4][0]
    go('expr traversal', 'a traversal expression', ex, t1({}), N('e1'), after=lambda sub, o: t1(sub), ev=at0, symty={'base': ('adt', EXP, ())},
       answers={'base': (V('Array', arr((('sym', 'x0'), ('sym', 'x1')))), V('Null')), "e1'": (V('Number', ('sym', 'n0')), V('Null'))})
    # structures
    sn = cx.adt('Structure')
    at = lambda sub, n: st('Attribute', key=ident_(cx, 'k'), expr=g(sub, n))
    go('attribute', 'an attribute', fid('Attribute'), at({}, 'e1'), N('e1'), after=lambda sub, o: at(sub, 'e1'))
    bo = cx.adt('Body')
    body = lambda *s: ('agg', 'adt', bo['id'], 0, (arr(s),))
    bl = lambda sub: st('Block', identifier=ident_(cx, 'b'), labels=arr(()), body=body(variant(F, sn, 'Attribute', at(sub, 'e2'))))
    go('block', 'a block', fid('Block'), bl({}), N('e2'), after=lambda sub, o: bl(sub))
    full = lambda sub: body(variant(F, sn, 'Attribute', at(sub, 'e1')), variant(F, sn, 'Block', bl(sub)), variant(F, sn, 'Attribute', at(sub, 'e3')))
    go('body', 'a body', fid('Body'), full({}), N('e1', 'e2', 'e3'), after=lambda sub, o: full(sub))
    # templates
    bb = B(cx)
    z = (False, False)

    def tp(sub):
        es = [bb.term(('lit', (('x', False),))), bb.term(('int', 'e1', z)), bb.term(('if', 'e2', [('int', 'e3', z)], [('int', 'e4', z)], z, z, z)),
              bb.term(('for', 'e5', [('int', 'e6', z)], (z, z), False)), bb.term(('if', 'e7', [('int', 'e8', z)], None, z, z, z))]
        t = struct(F, bb.a['Template'], elements=arr(tuple(es)))

        def ren(x):
            if x[0] == 'sym' and x[1] in sub:
                return sub[x[1]]
            return tuple(ren(y) if isinstance(y, tuple) and y else y for y in x)
        return ren(t)
    ety = ('adt', EXP, ())
    go('template', 'a template', fid('Template'), tp({}), N('e1', 'e2', 'e3', 'e4', 'e5', 'e7', 'e8'), after=lambda sub, o: tp(sub),
       symty={n: ety for n in ('e6', 'e7', 'e8', "e6'", "e7'", "e8'")})
    rep.floor('in-place rules', 26)


def behind(st, x):
    if x in st.mem and x[0] == 'sym':
        return st.mem[x]
    return tuple(behind(st, y) if isinstance(y, tuple) and y else y for y in x)


def errs(cx, v):
    """The errors held by a failed result."""
    x = v[4][0]
    if x[0] == 'agg' and x[2] == 'hcl::eval::error::Errors' and isarr(x[4][0]):
        return list(x[4][0][4])
    return None


def errs_of(cx, f):
    if f[0] == 'agg' and f[2] == 'hcl::eval::error::Errors':
        return list(f[4][0][4])
    return [f]
