"""Evaluation of expressions and templates, compared path by path with the meaning given by the specification.

Every evaluation function is interpreted abstractly: nested expressions are unknown, and evaluating one of them is an event
which either succeeds with any kind of value or fails. On every path the events and the result are compared with the
specification (the functions spec_* below), which asks for the values of the nested expressions it needs."""
from text import norm
from conc import *

EV = 'hcl::eval::Evaluate'
VAL = 'hcl::value::Value'
EXP = 'hcl::expr::Expression'
RANK = {'n0': 0, 'n1': 1, 'n2': 7, 'n3': -3.5, 'one': 1}


class Fail(Exception):
    """The specification demands an error."""
    def __init__(self, e=None):
        self.e = e


class Bad(Exception):
    pass


def isnum(x):
    return x[0] == 'sym' and x[1] in RANK or x[0] == 'op' and str(x[1]).startswith(('checked', 'neg'))


class EvalH(Conc):
    """Evaluation of nested terms is an event of the monitor: ('ev', name, bindings, answer)."""
    answers = {}
    samples = ()
    templates = ()
    inplace = False
    calls = ()
    lookups = True

    def display(self, E, st, x, ty, dst, ret):
        t = E.strip(ty) if ty else x[2] if x[0] == 'agg' else None
        if isnum(x) or t is None or (t[1] if isinstance(t, tuple) else t).split('::')[-1] not in ('ObjectKey', 'Identifier', 'Ident', 'InternalString'):
            return None
        return Conc.display(self, E, st, x, ty, dst, ret)

    def nm(self, x):
        return x[1] if x[0] == 'sym' else self.E.show(x)

    def binds(self, E, st, ctx):
        """Variables declared between the initial context and this one; outermost first."""
        ctx = E.full(st, ctx)
        out = []
        while ctx[0] == 'agg' and ctx[2] == 'hcl::eval::Context':
            vs = ctx[4][self.ci['vars']]
            p = ctx[4][self.ci['parent']]
            if isarr(vs):
                out = [(self.keyterm(x[4][0]), x[4][1]) for x in vs[4]] + out
            elif vs != ('sym', 'rootvars'):
                return ('?', vs)
            if p == NONE:
                d = {}
                for k, x in out:
                    d[k] = x
                out = sorted(d.items(), key=repr)
                return tuple(out) if vs == ('sym', 'rootvars') else ('no root',) + tuple(out)
            if p[0] != 'agg':
                return ('?', p)
            ctx = p[4][0]
        return ('?', ctx)

    def event(self, st, *e):
        st.mon = st.mon + (e,)

    def ev(self, E, st, c, x, out):
        """Evaluation of the unknown term x."""
        name = self.nm(x)
        b = self.binds(E, st, c.args[1])
        res = []
        done = [m for m in st.mon if m[:3] == ('ev', name, b)]
        sm = self.answers.get(name, self.samples)
        sm = sm(b) if callable(sm) else sm
        ans = [done[-1][3]] if done else [ok(v) for v in sm] + [err(('sym', 'err:' + name))]
        for a in ans:
            s = st.copy()
            self.event(s, 'ev', name, b, a)
            res += E.resume(s, c.ret, a)
        return res

    def ucall(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        R = lambda v: E.resume(st, c.ret, v)
        if c.trait == EV and n == 'evaluate':
            x = E.deref(st, a[0])
            x = st.mem.get(x, x)
            if x[0] != 'agg' and x[0] != 'const':
                return self.ev(E, st, c, x, 'value')
        if c.trait == EV and n == 'evaluate_in_place':
            x = E.deref(st, a[0])
            if x[0] != 'agg' and x[0] != 'const':
                return self.ev_in_place(E, st, c, x)
        t = E.strip(c.targs[0]) if c.targs else None
        if np.endswith('fmt::format'):
            return R(('sym', 'message'))
        if np == 'clone::Clone::clone':
            return R(E.full(st, a[0]))
        if np in ('convert::From::from', 'convert::Into::into') and any(x[0] in ('param', 'alias') for x in c.targs):
            return R(a[0])
        if a:
            x = E.deref(st, a[0])
            y = E.deref(st, a[1]) if len(a) > 1 else None
            if np in ('cmp::PartialEq::eq', 'cmp::PartialEq::ne') and t and t[0] == 'adt' and t[1].split('::')[-1] in ('Value', 'Number'):
                x, y = E.full(st, a[0]), E.full(st, a[1])
                if isnum(x) and isnum(y) and x[0] == y[0] == 'sym':
                    r = RANK[x[1]] == RANK[y[1]]
                else:
                    r = x == y
                return R(cbool(r == (n == 'eq')))
            if y is not None and isnum(x) and isnum(y):
                if np.startswith('cmp::'):
                    if x[0] == y[0] == 'sym':
                        p, q = RANK[x[1]], RANK[y[1]]
                        if n in ('lt', 'le', 'gt', 'ge'):
                            return R(cbool({'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[n]))
                        if n in ('partial_cmp', 'cmp'):
                            o = ('agg', 'adt', 'core::cmp::Ordering', (p > q) - (p < q) + 1, ())
                            return R(some(o) if n == 'partial_cmp' else o)
                        if n in ('eq', 'ne'):
                            return R(cbool((p == q) == (n == 'eq')))
                    return None
                if n.startswith('checked_'):
                    v = ('op', n, None, x, y)
                    s = st.copy()
                    self.event(s, 'none', n, x, y)
                    return E.resume(st, c.ret, some(v)) + E.resume(s, c.ret, NONE)
                if np.startswith('ops::'):
                    return R(('op', 'unchecked ' + n, None, x, y))
            if isnum(x) and np == 'ops::Neg::neg':
                return R(('op', 'neg', None, x))
            if isnum(x) and n in ('as_u64', 'as_i64', 'as_f64') and x[0] == 'sym':
                k = RANK[x[1]]
                good = k == int(k) and (k >= 0 or n == 'as_i64') or n == 'as_f64'
                return R(some(cint(k)) if good else NONE)
            if isnum(x) and n in ('is_f64', 'is_i64', 'is_u64') and x[0] == 'sym':
                k = RANK[x[1]]
                return R(cbool({'is_f64': k != int(k), 'is_i64': k == int(k), 'is_u64': k == int(k) and k >= 0}[n]))
            if x in (('sym', 'rootvars'), ('sym', 'rootfuncs')) and n in ('get', 'contains_key', 'get_key_value', 'get_full'):
                k = self.keyterm(E.full(st, a[1]))
                out = []
                done = [m for m in st.mon if m[0] == 'look' and m[1] == x[1] and m[2] == k]
                for v in ([done[-1][3]] if done else [some(self.rooted(x[1])), NONE]):
                    s = st.copy()
                    if not done:
                        self.event(s, 'look', x[1], k, v)
                    r = v
                    if n == 'contains_key':
                        r = cbool(v != NONE)
                    elif n == 'get_key_value' and v != NONE:
                        r = some(tup(k, v[4][0]))
                    out += E.resume(s, c.ret, r)
                return out
        fid = c.res[0] if c.res else c.id
        if c.trait is None and fid in self.F.fns and self.templates:
            rt = self.F.fns[fid]['lty'][0]
            if rt[0] == 'adt' and rt[1] == RES and rt[2][0] == ('adt', 'hcl::template::Template', ()) and \
                    E.full(st, a[0]) == self.tplarg:
                out = []
                for v in [ok(x) for x in self.templates] + [err(('sym', 'err:parse'))]:
                    s = st.copy()
                    self.event(s, 'ev', 'parse', (), v)
                    out += E.resume(s, c.ret, v)
                return out
        return None

    def rooted(self, which):
        return ('sym', 'rootvar') if which == 'rootvars' else self.rootfunc

    def on_unknown_fn(self, E, st, cv, args, ret, line):
        if cv[0] == 'sym' and cv[1].startswith('fn'):
            out = []
            for v in (ok(('sym', 'called')), err(('sym', 'err:fn'))):
                s = st.copy()
                self.event(s, 'call', cv[1], tuple(E.full(st, a) for a in args), v)
                out += E.resume(s, ret, v)
            return out
        return None

    def ev_in_place(self, E, st, c, x):
        name = self.nm(x)
        b = self.binds(E, st, c.args[1])
        out = []
        s = st.copy()
        self.event(s, 'inp', name, b, ok(UNIT))
        if c.args[0][0] == 'slot':
            E.store(s, c.args[0], ('sym', name + "'"))
        else:
            s.mem[x] = ('sym', name + "'")      # behind a box
        out += E.resume(s, c.ret, ok(UNIT))
        self.event(st, 'inp', name, b, err(('sym', 'err:' + name)))
        out += E.resume(st, c.ret, err(self.errors(('sym', 'err:' + name))))
        return out

    def errors(self, e):
        a = self.F.adts['hcl::eval::error::Errors']
        return struct(self.F, a, inner=arr((e,)))


# ---------------------------------------------------------------- helper terms
class Ctx:
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.val = F.adts[VAL]
        self.exp = F.adts[EXP]
        c = F.adts['hcl::eval::Context']
        self.ci = {f['name']: i for i, f in enumerate(c['variants'][0]['fields'])}
        self.ctx = struct(F, c, vars=('sym', 'rootvars'), funcs=('sym', 'rootfuncs'), parent=NONE, expr=NONE)
        self.impls = {}
        for im in F.impls:
            if im['traitid'] == EV and im['selfty'][0] == 'adt':
                self.impls[im['selfty'][1].split('::')[-1]] = {it['id'].split('::')[-1]: it['id'] for it in im['items']}
        V = self.V
        self.samples = (V('Null'), V('Bool', cbool(True)), V('Bool', cbool(False)), V('Number', ('sym', 'n1')),
                        V('String', ('sym', 's1')), V('Array', arr((('sym', 'x0'), ('sym', 'x1')))),
                        V('Object', arr((tup(('sym', 'k0'), ('sym', 'x0')), tup(('sym', 'k1'), ('sym', 'x1'))))))

    def V(self, n, *f):
        return variant(self.F, self.val, n, *f)

    def X(self, n, *f):
        return variant(self.F, self.exp, n, *f)

    def vname(self, v):
        return self.F.vname(v[2], v[3]) if v[0] == 'agg' and v[1] == 'adt' else None

    def adt(self, name):
        xs = [a for a in self.F.adts.values() if a['crate'] == 'hcl' and a['id'].split('::')[-1] == name
              and a['id'].split('::')[1] in ('expr', 'structure', 'template', 'eval', 'ident', 'value')]
        return xs[0] if len(xs) == 1 else None

    def fid(self, ty, m='evaluate'):
        f = self.impls.get(ty, {}).get(m)
        self.rep.oblige(f is not None, '%s:%s' % (ty, m), 'the evaluation of %s was not found (anchor)' % ty)
        return f

    def idx(self, i):
        """The value of an index."""
        f = impl_fn(self.F, 'From', ('adt', VAL, ()), 'from', (('prim', 'usize'),))
        xs, E = results(self.F, f, [cint(i)])
        return xs[0][1] if len(xs) == 1 else None

    def run(self, fid, self_, subst=None, args=None, hooks=EvalH, **kw):
        kw.setdefault('answers', {})
        kw.setdefault('samples', self.samples)
        h = hooks(F=self.F, **kw)
        h.ucall = hooks.ucall.__get__(h)
        h.ci = self.ci
        E = Engine(self.F, h)
        h.E = E
        ety = ('adt', EXP, ())
        for i in range(1, 6):
            E.sym('e%d' % i, ety)
        for k, t in kw.get('symty', {}).items():
            E.sym(k, t)
        a = args(E) if args else [self_, self.ctx]
        E.env0 = kw.get('env')
        E.run(fid, a, subst, ())
        self.rep.count('paths', len(h.exits))
        return h.exits, E

    def compare(self, key, what, exits, E, spec, minimum=1):
        """Compares every path with the specification."""
        rep = self.rep
        rep.count('evaluation rules')
        n = 0
        seen = set()
        for st, v in exits:
            n += 1
            o = Oracle(self, st.mon)
            v = norm(v)
            try:
                want = norm(ok(spec(o)))
            except Fail as e:
                want = err(e.e)
            except Bad as e:
                msg = str(e)
                if (key, msg) not in seen:
                    seen.add((key, msg))
                    rep.oblige(False, '%s:%s' % (key, msg[:80]), '%s: %s (%s)' % (what, msg, self.path(E, st)))
                continue
            er = [m for m in st.mon if m[0] in ('ev', 'call') and m[3][3] == 1 and m[3][2] == RES]
            isok = v[0] == 'agg' and v[2] == RES and v[3] == 0
            iserr = v[0] == 'agg' and v[2] == RES and v[3] == 1
            good, msg = True, ''
            if er and iserr:
                good = contains(v, er[-1][3][4][0])
                msg = 'the error of a nested evaluation is replaced'
                if er[-1] != st.mon[-1] and good:
                    good, msg = False, 'evaluation goes on after an error'
            elif er:
                good, msg = False, 'the error of evaluating %s is ignored' % er[0][1]
            elif want[3] == 1:
                good, msg = iserr, 'it must be an error but is %s' % E.show(v)
            else:
                left = o.unused()
                if v != want:
                    good, msg = False, 'it is %s instead of %s' % (E.show(v), E.show(want))
                elif left:
                    good, msg = False, '%s is evaluated although its value is not needed' % left[0][1]
            rep.obligations += 1
            if good:
                rep.discharged += 1
            elif (key, msg) not in seen and len(seen) < 4:
                seen.add((key, msg))
                rep.violate('%s:%s' % (key, msg[:100]), '%s: %s (%s)' % (what, msg, self.path(E, st)))
        rep.oblige(n >= minimum, key + ':paths', '%s: only %d ways through were found' % (what, n))

    def path(self, E, st):
        out = []
        for m in st.mon:
            if m[0] == 'ev':
                out.append('%s = %s' % (m[1], E.show(m[3])))
            elif m[0] == 'none':
                out.append('%s overflows' % m[1])
            elif m[0] == 'look':
                out.append('%s of %s = %s' % (m[1], E.show(m[2]), E.show(m[3])))
        return ('where ' + ', '.join(out))[:300] if out else 'always'


class Oracle:
    def __init__(self, cx, mon):
        self.cx, self.mon = cx, mon
        self.used = set()

    def __call__(self, name, binds=()):
        """The value of a nested expression in a context which binds some variables."""
        hit = [i for i, m in enumerate(self.mon) if m[0] == 'ev' and m[1] == name]
        good = [i for i in hit if self.mon[i][2] == binds]
        if not good:
            if any(m[0] in ('ev', 'call') and m[3][2] == RES and m[3][3] == 1 for m in self.mon):
                raise Fail()
            if hit:
                raise Bad('%s is not evaluated in the scope of %s' % (name, [cxshow(b) for b in binds] or 'the enclosing context'))
            import os
            raise Bad('%s is never evaluated' % name)
        self.used |= set(good)
        a = self.mon[good[0]][3]
        if a[3] == 1:
            raise Fail(a[4][0])
        return a[4][0]

    def look(self, which, key):
        for i, m in enumerate(self.mon):
            if m[0] == 'look' and m[1] == which and m[2] == key:
                self.used.add(i)
                if m[3] == NONE:
                    raise Fail()
                return m[3][4][0]
        raise Bad('%s is not looked up in the enclosing context' % (key,))

    def none(self, op, x, y):
        for i, m in enumerate(self.mon):
            if m == ('none', op, x, y):
                self.used.add(i)
                return True
        return False

    def called(self, fn):
        for i, m in enumerate(self.mon):
            if m[0] == 'call' and m[1] == fn:
                self.used.add(i)
                if m[3][3] == 1:
                    raise Fail(m[3][4][0])
                return m[2]
        return None

    def unused(self):
        return [m for i, m in enumerate(self.mon) if i not in self.used and m[0] in ('ev', 'call')]


def cxshow(b):
    return b[0][1] if isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], tuple) and len(b[0]) > 1 else str(b)


ARITH = {'Plus': 'checked_add', 'Minus': 'checked_sub', 'Mul': 'checked_mul', 'Div': 'checked_div', 'Mod': 'checked_rem'}
CMP = {'Less': lambda a, b: a < b, 'LessEq': lambda a, b: a <= b, 'Greater': lambda a, b: a > b, 'GreaterEq': lambda a, b: a >= b}


def operators(cx):
    F, rep, V = cx.F, cx.rep, cx.V
    B = adt_named(F, 'hcl_primitives', 'BinaryOperator')
    U = adt_named(F, 'hcl_primitives', 'UnaryOperator')
    fid = cx.fid('BinaryOp')
    nums = tuple(V('Number', ('sym', n)) for n in ('n0', 'n1', 'n2'))
    others = tuple(s for s in cx.samples if cx.vname(s) != 'Number')
    if fid:
        for v in B['variants']:
            op = v['name']

            def spec(ask):
                l, r = ask('e1'), ask('e2')
                ln, rn = cx.vname(l), cx.vname(r)
                if op == 'Eq':
                    return V('Bool', cbool(l == r))
                if op == 'NotEq':
                    return V('Bool', cbool(l != r))
                if op in ('And', 'Or'):
                    if ln != 'Bool' or rn != 'Bool':
                        raise Fail()
                    a, b = l[4][0][2], r[4][0][2]
                    return V('Bool', cbool(a and b if op == 'And' else a or b))
                if ln != 'Number' or rn != 'Number':
                    raise Fail()
                x, y = l[4][0], r[4][0]
                if op in CMP:
                    return V('Bool', cbool(CMP[op](RANK[x[1]], RANK[y[1]])))
                if ask.none(ARITH[op], x, y):
                    raise Fail()
                return V('Number', ('op', ARITH[op], None, x, y))
            s = struct(F, cx.adt('BinaryOp'), lhs_expr=('sym', 'e1'), operator=variant(F, B, op), rhs_expr=('sym', 'e2'))
            xs, E = cx.run(fid, s, answers={'e1': others + (nums[1],), 'e2': others + nums})
            cx.compare('binary:' + op, 'a %s b' % op, xs, E, spec, 50)
            rep.count('operators')
    fid = cx.fid('UnaryOp')
    if fid:
        for v in U['variants']:
            op = v['name']

            def spec(ask):
                x = ask('e1')
                if op == 'Not' and cx.vname(x) == 'Bool':
                    return V('Bool', cbool(not x[4][0][2]))
                if op == 'Neg' and cx.vname(x) == 'Number':
                    return V('Number', ('op', 'neg', None, x[4][0]))
                raise Fail()
            s = struct(F, cx.adt('UnaryOp'), operator=variant(F, U, op), expr=('sym', 'e1'))
            xs, E = cx.run(fid, s)
            cx.compare('unary:' + op, '%s a' % op, xs, E, spec, 7)
            rep.count('operators')
    rep.floor('operators', 15)


def rules(rep):
    rep.rule('On every path the value is the one the specification gives for the values of the nested expressions, a nested '
             'error ends the evaluation and is returned, and nothing is evaluated that is not needed.')


def keystr(cx, v):
    n = cx.vname(v)
    x = v[4][0] if v[4] else None
    if n == 'String':
        return x
    if n == 'Bool':
        return cstr('true' if x[2] else 'false')
    if n == 'Number':
        return ('toks', (('val', x),))
    raise Fail()


def conditional(cx):
    fid = cx.fid('Conditional')
    if not fid:
        return

    def spec(ask):
        c = ask('e1')
        if cx.vname(c) != 'Bool':
            raise Fail()
        return ask('e2' if c[4][0][2] else 'e3')
    s = struct(cx.F, cx.adt('Conditional'), cond_expr=('sym', 'e1'), true_expr=('sym', 'e2'), false_expr=('sym', 'e3'))
    xs, E = cx.run(fid, s, answers={'e2': (('sym', 'v2'),), 'e3': (('sym', 'v3'),)})
    cx.compare('conditional', 'a ? b : c', xs, E, spec, 8)


def keys(cx):
    fid = cx.fid('ObjectKey')
    if not fid:
        return
    a = cx.adt('ObjectKey')
    xs, E = cx.run(fid, variant(cx.F, a, 'Expression', ('sym', 'e1')))
    cx.compare('key:expr', 'an object key (expr)', xs, E, lambda ask: keystr(cx, ask('e1')), 8)
    ident = ident_(cx, 'name')
    xs, E = cx.run(fid, variant(cx.F, a, 'Identifier', ident))
    cx.compare('key:ident', 'an object key that is an identifier', xs, E, lambda ask: cstr('name'))


def ident_(cx, s):
    h = cx.adt('Identifier')
    p = adt_named(cx.F, 'hcl_primitives', 'Ident')
    f = p['variants'][0]['fields'][0]['ty']
    # the text inside the identifier
    x = cstr(s) if f[0] == 'adt' and f[1].split('::')[-1] == 'String' else ('agg', 'adt', f[1], 0, (cstr(s),))
    return ('agg', 'adt', h['id'], 0, (('agg', 'adt', p['id'], 0, (x,)),))


def dispatch(cx):
    """What each kind of expression evaluates to."""
    F, V, X = cx.F, cx.V, cx.X
    fid = cx.fid('Expression')
    if not fid:
        return
    e, w = ('sym', 'e1'), ('sym', 'e2')
    vv = lambda *n: {k: (('sym', 'v' + k[1]),) for k in n}

    def case(key, what, x, spec, mini=1, **kw):
        xs, E = cx.run(fid, x, **kw)
        cx.compare('expr:' + key, what, xs, E, spec, mini)
        cx.rep.count('expression kinds')
    case('null', 'null', X('Null'), lambda ask: V('Null'))
    for b in (True, False):
        case('bool', 'a boolean', X('Bool', cbool(b)), lambda ask: V('Bool', cbool(b)))
    case('number', 'a number', X('Number', ('sym', 'n1')), lambda ask: V('Number', ('sym', 'n1')))
    case('string', 'a string', X('String', ('sym', 's1')), lambda ask: V('String', ('sym', 's1')))
    case('array', 'an array', X('Array', arr((e, w))), lambda ask: V('Array', arr((ask('e1'), ask('e2')))), 3,
         answers=vv('e1', 'e2'))
    ok_ = cx.adt('ObjectKey')
    obj = arr((tup(variant(F, ok_, 'Identifier', ident_(cx, 'a')), e), tup(variant(F, ok_, 'Expression', ('sym', 'e3')), w)))

    def objspec(ask):
        v1 = ask('e1')
        k = keystr(cx, ask('e3'))
        v2 = ask('e2')
        return V('Object', arr((tup(cstr('a'), v1), tup(k, v2))))
    case('object', 'an object', X('Object', obj), objspec, 8, answers=vv('e1', 'e2'))
    case('parenthesis', 'an expression in parentheses', X('Parenthesis', e), lambda ask: ask('e1'), 2)
    var = cx.adt('Variable')
    vt = ('agg', 'adt', var['id'], 0, (ident_(cx, 'x'),))
    case('variable', 'a variable', X('Variable', vt), lambda ask: ask.look('rootvars', cstr('x')), 2)
    for n in ('Conditional', 'Operation', 'ForExpr', 'FuncCall', 'Traversal', 'TemplateExpr'):
        # the nested evaluation function decides; its result is passed on
        case(n, 'an expression of kind ' + n, X(n, ('sym', 'inner')), lambda ask: ask('inner'), 2,
             answers={'inner': (('sym', 'vi'),)}, symty={'inner': ('adt', cx.adt(n)['id'], ())})
    cx.rep.floor('expression kinds', 14)
    fid = cx.fid('Operation')
    for n in ('Unary', 'Binary'):
        xs, E = cx.run(fid, variant(F, cx.adt('Operation'), n, ('sym', 'inner')), answers={'inner': (('sym', 'vi'),)},
                       symty={'inner': ('adt', cx.adt(n + 'Op')['id'], ())})
        cx.compare('operation:' + n, 'a %s operation' % n.lower(), xs, E, lambda ask: ask('inner'), 2)
    # structures
    st, at, bl, bo = (cx.adt(n) for n in ('Structure', 'Attribute', 'Block', 'Body'))
    for n, a in (('Attribute', at), ('Block', bl)):
        xs, E = cx.run(cx.fid('Structure'), variant(F, st, n, ('sym', 'inner')), answers={'inner': (('sym', 'vi'),)},
                       symty={'inner': ('adt', a['id'], ())})
        cx.compare('structure:' + n, 'a structure that is %s' % n, xs, E, lambda ask: variant(F, st, n, ask('inner')), 2)
    key = ident_(cx, 'k')
    a = struct(F, at, key=key, expr=e)

    def attr(ask):
        v = ask('e1')
        n = cx.vname(v)
        # a value as an expression
        return struct(F, at, key=key, expr=toexpr(cx, v))
    xs, E = cx.run(cx.fid('Attribute'), a, answers={'e1': cx.samples[:5]})
    cx.compare('attribute', 'an attribute', xs, E, attr, 5)
    b = struct(F, bl, identifier=key, labels=('sym', 'labels'), body=('sym', 'body'))
    xs, E = cx.run(cx.fid('Block'), b, answers={'body': (('sym', 'vb'),)}, symty={'body': ('adt', bo['id'], ())})
    cx.compare('block', 'a block', xs, E, lambda ask: struct(F, bl, identifier=key, labels=('sym', 'labels'), body=ask('body')), 2)
    b = ('agg', 'adt', bo['id'], 0, (arr((('sym', 's1'), ('sym', 's2'))),))
    sty = ('adt', st['id'], ())
    xs, E = cx.run(cx.fid('Body'), b, answers={'s1': (('sym', 'v1'),), 's2': (('sym', 'v2'),)}, symty={'s1': sty, 's2': sty})
    cx.compare('body', 'a body', xs, E, lambda ask: ('agg', 'adt', bo['id'], 0, (arr((ask('s1'), ask('s2'))),)), 3)


def toexpr(cx, v):
    n = cx.vname(v)
    return cx.X(n, *v[4])


# ---------------------------------------------------------------- traversals
def traversal(cx):
    F, V, rep = cx.F, cx.V, cx.rep
    fid = cx.fid('Traversal')
    if not fid:
        return
    S = lambda s: V('String', ('sym', s))
    A = lambda *x: V('Array', arr(x))
    O = lambda **kw: V('Object', arr(tuple(tup(cstr(k), v) for k, v in kw.items())))
    bases = (V('Null'), S('b'), O(), A(O(k=A(S('a'), S('b')), m=S('c')), O(k=A(S('d'), S('e'), S('f')), m=V('Null'))), A(),
             O(k=A(O(k=S('g')), O(m=S('x'), k=S('h'))), m=O(k=S('i'), m=S('j'))), A(A(S('p'), S('q')), A(S('r'), S('s'))))
    T = cx.adt('TraversalOperator')
    ops = {'[e2]': variant(F, T, 'Index', ('sym', 'e2')), '.1': variant(F, T, 'LegacyIndex', cint(1)),
           '.k': variant(F, T, 'GetAttr', ident_(cx, 'k')), '.*': variant(F, T, 'AttrSplat'), '[*]': variant(F, T, 'FullSplat'),
           '.m': variant(F, T, 'GetAttr', ident_(cx, 'm'))}
    seqs = [(a,) for a in ops] + [(a, b) for a in ops for b in ops] + \
           [(a, b, c) for a in ops if a != '.m' for b in ops for c in ops if c != '.m']
    seqs += [('.*', '.k', '.m', '.1'), ('[*]', '.k', '.*', '.m'), ('.k', '[*]', '.k', '[*]'), ('.*', '.m', '.*', '.k')]
    idx = (V('Number', ('sym', 'n0')), V('Number', ('sym', 'n2')), V('Number', ('sym', 'n3')), V('String', cstr('m')), V('Bool', cbool(True)))

    def at(v, i):
        if cx.vname(v) != 'Array' or i >= len(v[4][0][4]):
            raise Fail()
        return v[4][0][4][i]

    def attr(v, k):
        if cx.vname(v) == 'Object':
            for e in v[4][0][4]:
                if e[4][0] == k:
                    return e[4][1]
        raise Fail()

    def apply(ask, v, sq):
        if not sq:
            return v
        o, rest = sq[0], sq[1:]
        if o == '.1':
            v = at(v, 1)
        elif o in ('.k', '.m'):
            v = attr(v, cstr(o[1]))
        elif o == '[e2]':
            i = ask('e2')
            if cx.vname(i) == 'String':
                v = attr(v, i[4][0])
            elif cx.vname(i) == 'Number':
                k = RANK[i[4][0][1]]
                if k != int(k) or k < 0:
                    raise Fail()
                v = at(v, k)
            else:
                raise Fail()
        else:
            n = len(rest)
            if o == '.*':
                n = 0
                while n < len(rest) and rest[n] in ('.k', '.m'):
                    n += 1
            per, rest = rest[:n], rest[n:]
            if cx.vname(v) == 'Array':
                v = A(*[apply(ask, x, per) for x in v[4][0][4]])
            elif cx.vname(v) == 'Null':
                v = A()
            else:
                v = A(apply(ask, v, per))
        return apply(ask, v, rest)
    t = cx.adt('Traversal')
    for sq in seqs:
        s = struct(F, t, expr=('sym', 'e1'), operators=arr(tuple(ops[o] for o in sq)))
        xs, E = cx.run(fid, s, answers={'e1': bases, 'e2': idx})
        cx.compare('traversal:' + ''.join(sq), 'a traversal e1%s' % ''.join(sq), xs, E, lambda ask: apply(ask, ask('e1'), sq), len(bases))
        rep.count('operator sequences')
    rep.floor('operator sequences', 150)


# ---------------------------------------------------------------- functions
def funccall(cx):
    F, V, rep = cx.F, cx.V, cx.rep
    fid = cx.fid('FuncCall')
    pt, fd, fa = cx.adt('ParamType'), cx.adt('FuncDef'), cx.adt('FuncArgs')
    if not fid:
        return
    rf = struct(F, fd, func=('sym', 'fn'), params=arr(()), variadic_param=some(variant(F, pt, 'Any')))
    name = struct(F, cx.adt('FuncName'), namespace=arr(()), name=ident_(cx, 'f'))
    vals = (V('String', ('sym', 'a')), V('Array', arr((('sym', 'x0'), ('sym', 'x1')))), V('Array', arr(())))
    for n in range(4):
        for exp in (False, True):
            es = ['e%d' % (i + 1) for i in range(n)]

            def spec(ask):
                ask.look('rootfuncs', name)
                got = []
                for i, e in enumerate(es):
                    v = ask(e)
                    if exp and i == n - 1:
                        if cx.vname(v) != 'Array':
                            raise Fail()
                        got += list(v[4][0][4])
                    else:
                        got.append(v)
                args = ask.called('fn')
                if args is None:
                    raise Bad('the function is not called')
                if args != (struct(F, fa, values=arr(tuple(got)), pos_args_len=cint(0)),):
                    raise Bad('the function is called with the wrong arguments')
                return ('sym', 'called')
            s = struct(F, cx.adt('FuncCall'), name=name, args=arr(tuple(('sym', e) for e in es)), expand_final=cbool(exp))
            xs, E = cx.run(fid, s, answers={e: vals for e in es}, rootfunc=rf)
            cx.compare('call:%d%s' % (n, '...' if exp else ''), 'f(%s%s)' % (', '.join(es), '...' if exp else ''), xs, E, spec, 3)
            rep.count('call shapes')
    rep.floor('call shapes', 8)


def satisfies(cx, p, v):
    n, k = F_vn(cx, p), cx.vname(v)
    if n == 'Any':
        return True
    if n in ('Bool', 'Number', 'String'):
        return k == n
    q = p[4][0]
    if n == 'Array':
        return k == 'Array' and all(satisfies(cx, q, x) for x in v[4][0][4])
    if n == 'Object':
        return k == 'Object' and all(satisfies(cx, q, x[4][1]) for x in v[4][0][4])
    if n == 'Nullable':
        return k == 'Null' or satisfies(cx, q, v)
    if n == 'OneOf':
        return any(satisfies(cx, x, v) for x in q[4])
    raise AssertionError(n)


def F_vn(cx, p):
    return cx.F.vname(p[2], p[3])


def params(cx):
    """Parameter types."""
    F, V, rep = cx.F, cx.V, cx.rep
    pt = cx.adt('ParamType')
    P = lambda n, *f: variant(F, pt, n, *f)
    f = find_fn(F, 'hcl', 'ParamType::is_satisfied_by')
    base = [P('Any'), P('Bool'), P('Number'), P('String')]
    types = list(base)
    for b in base[1:]:
        types += [P('Array', b), P('Object', b), P('Nullable', b), P('OneOf', arr((b, P('Null' if 0 else 'Number')))),
                  P('Array', P('Nullable', b)), P('Nullable', P('Array', b)), P('Object', P('OneOf', arr((b, P('String'))))),
                  P('OneOf', arr((P('Array', b), P('Object', b), P('Bool'))))]
    missing = [v['name'] for v in pt['variants'] if v['name'] not in ('Any', 'Bool', 'Number', 'String', 'Array', 'Object', 'Nullable', 'OneOf')]
    rep.oblige(not missing, 'param:kinds', 'parameter types without a rule: %s' % missing)
    B, N, S, Z = V('Bool', cbool(True)), V('Number', ('sym', 'n1')), V('String', ('sym', 's1')), V('Null')
    arrs = lambda *x: V('Array', arr(x))
    obj = lambda *x: V('Object', arr(tuple(tup(cstr('k%d' % i), y) for i, y in enumerate(x))))
    vals = [B, N, S, Z] + [g(*x) for g in (arrs, obj) for x in ((), (B,), (N, N), (S, S), (B, S), (Z,), (N, Z), (S, N), (Z, B))]
    return f, types, vals, P


def run_funcs(rep):
    F = load()
    cx = Ctx(F, rep)
    rep.rule('A function only runs when the number of arguments fits and every argument has the declared type of its '
             'parameter, and it receives exactly the arguments, split into positional and variadic ones.')
    V = cx.V
    f, types, vals, P = params(cx)
    fd, fa = cx.adt('FuncDef'), cx.adt('FuncArgs')
    call = find_fn(F, 'hcl', 'FuncDef::call')
    rep.oblige(f is not None, 'sat', 'the parameter type check was not found (anchor)')
    rep.oblige(call is not None, 'calls', 'the function call was not found (anchor)')
    if f:
        for t in types:
            for v in vals:
                xs, E = cx.run(f, None, args=lambda E: [t, v])
                want = satisfies(cx, t, v)
                got = set(x for _, x in xs)
                rep.count('type and value pairs')
                rep.oblige(got == {cbool(want)}, 'sat:%s:%s' % (E.show(t), E.show(v)), 'a value %s %s the parameter type %s' % (
                    E.show(v), 'does not satisfy' if want else 'satisfies', E.show(t)))
    if call:
        B, S, N = V('Bool', cbool(True)), V('String', ('sym', 's1')), V('Number', ('sym', 'n1'))
        pb, ps, pn = P('Bool'), P('String'), P('Number')
        argl = [()] + [(a,) for a in (B, S)] + [(a, b) for a in (B, S) for b in (B, S)] + \
            [(a, b, c) for a in (B, S) for b in (B, S) for c in (B, S)] + [(B, S, N, N), (B, S, S, N), (B, S, N, S), (B, B, B, B)]
        for ps_ in ((), (pb,), (pb, ps)):
            for var in (None, pb, ps, pn):
                d = struct(F, fd, func=('sym', 'fn'), params=arr(ps_), variadic_param=some(var) if var else NONE)
                for al in argl:
                    np_ = len(ps_)
                    good = len(al) == np_ if var is None else len(al) >= np_
                    good = good and all(satisfies(cx, p, a) for p, a in zip(ps_, al)) and \
                        all(satisfies(cx, var, a) for a in al[np_:])
                    want = (struct(F, fa, values=arr(al), pos_args_len=cint(np_)),)

                    def spec(ask):
                        got = ask.called('fn')
                        if not good:
                            if got is not None:
                                raise Bad('the function runs although the arguments do not fit')
                            raise Fail()
                        if got is None:
                            raise Bad('the function does not run although the arguments fit')
                        if got != want:
                            raise Bad('the function gets other arguments')
                        return ('sym', 'called')
                    xs, E = cx.run(call, None, args=lambda E: [d, arr(al)])
                    nm = 'f(%s%s) called with (%s)' % (', '.join(E.show(p).split('::')[-1] for p in ps_), ', %s...' % E.show(var).split('::')[-1] if var else '',
                                                       ', '.join(E.show(a).split('::')[-1] for a in al))
                    cx.compare(nm, nm, xs, E, spec)
                    rep.count('signature and argument pairs')
    # the view of the arguments the function gets
    vs = tuple(('sym', 'x%d' % i) for i in range(4))
    for meth, want in (('positional_args', lambda n: vs[:n]), ('variadic_args', lambda n: vs[n:])):
        g = find_fn(F, 'hcl', 'FuncArgs::' + meth)
        rep.oblige(g is not None, meth, '%s was not found (anchor)' % meth)
        if not g:
            continue
        for n in range(5):
            xs, E = cx.run(g, None, args=lambda E: [struct(F, fa, values=arr(vs), pos_args_len=cint(n))])
            got = set(x for _, x in xs)
            w = ('it', 'list', want(n), 0)
            ok_ = len(got) == 1
            for x in got:
                while x[0] == 'agg' and len(x[4]) == 1:
                    x = x[4][0]
                ok_ = ok_ and x[0] == 'it' and x[1] == 'list' and x[2][x[3]:] == want(n)
            rep.oblige(ok_, '%s:%d' % (meth, n), '%s of 4 arguments with %d positional parameters are not exactly those' % (meth, n))
    # definitions
    b = find_fn(F, 'hcl', 'FuncDef::builder')
    bp, bps, bv, bb, fnew = (find_fn(F, 'hcl', n) for n in ('FuncDefBuilder::param', 'FuncDefBuilder::params', 'FuncDefBuilder::variadic_param',
                                                     'FuncDefBuilder::build', 'FuncDef::new'))
    rep.oblige(all((b, bp, bps, bv, bb, fnew)), 'builder', 'the builder of function definitions was not found (anchor)')
    if all((b, bp, bps, bv, bb, fnew)):
        one = lambda f, *a: (lambda xs: xs[0][1] if len(xs) == 1 else ('top',))(cx.run(f, None, args=lambda E: list(a))[0])
        d = one(b)
        d = one(bp, d, ('sym', 'p0'))
        d = one(bps, d, arr((('sym', 'p1'), ('sym', 'p2'))))
        d = one(bp, d, ('sym', 'p3'))
        d0 = one(bb, d, ('sym', 'fn'))
        d1 = one(bb, one(bv, d, ('sym', 'pv')), ('sym', 'fn'))
        d2 = one(fnew, ('sym', 'fn'), arr((('sym', 'p0'), ('sym', 'p1'))))
        ps_ = tuple(('sym', 'p%d' % i) for i in range(4))
        for k, g, w in (('plain', d0, struct(F, fd, func=('sym', 'fn'), params=arr(ps_), variadic_param=NONE)),
                        ('variadic', d1, struct(F, fd, func=('sym', 'fn'), params=arr(ps_), variadic_param=some(('sym', 'pv')))),
                        ('new', d2, struct(F, fd, func=('sym', 'fn'), params=arr(ps_[:2]), variadic_param=NONE))):
            rep.oblige(g == w, 'builder:' + k, 'a built function definition (%s) does not have the given parameters in order' % k)
    rep.floor('type and value pairs', 500)
    rep.floor('signature and argument pairs', 200)


# ---------------------------------------------------------------- for expressions, scopes
def forexpr(cx):
    F, V, rep = cx.F, cx.V, cx.rep
    fid = cx.fid('ForExpr')
    if not fid:
        return
    colls = (V('Array', arr((('sym', 'x0'), ('sym', 'x1')))),
             V('Object', arr((tup(cstr('a'), ('sym', 'x0')), tup(cstr('b'), ('sym', 'x1'))))), V('Null'), V('Array', arr(())))
    bools = (V('Bool', cbool(True)), V('Bool', cbool(False)), V('Null'))
    kv, vv = ident_(cx, 'kk'), ident_(cx, 'vv')
    for key in (False, True):
        for cond in (False, True):
            for kvar in (False, True):
                for grp in ((False, True) if key else (False,)):
                    s = struct(F, cx.adt('ForExpr'), key_var=some(kv) if kvar else NONE, value_var=vv, collection_expr=('sym', 'e1'),
                               key_expr=some(('sym', 'e2')) if key else NONE, value_expr=('sym', 'e3'), grouping=cbool(grp),
                               cond_expr=some(('sym', 'e4')) if cond else NONE)
                    keys = (V('String', cstr('p')), V('String', cstr('q')), V('Null')) if kvar else (V('String', cstr('p')), V('Bool', cbool(True)))
                    xs, E = cx.run(fid, s, answers={'e1': colls, 'e2': keys, 'e3': lambda b: (('op', 'body', None, b),), 'e4': bools})

                    def spec(ask):
                        res = {}
                        out = []
                        for b in scopes(cx, ask('e1'), 'kk' if kvar else None, 'vv'):
                            if cond:
                                c = ask('e4', b)
                                if cx.vname(c) != 'Bool':
                                    raise Fail()
                                if not c[4][0][2]:
                                    continue
                            if key:
                                k = keystr(cx, ask('e2', b))
                                v = ask('e3', b)
                                if grp:
                                    res.setdefault(k, []).append(v)
                                elif k in res:
                                    raise Fail()
                                else:
                                    res[k] = v
                            else:
                                out.append(ask('e3', b))
                        if key:
                            return V('Object', arr(tuple(tup(k, V('Array', arr(tuple(v))) if grp else v) for k, v in res.items())))
                        return V('Array', arr(tuple(out)))
                    nm = 'for %svv in e1 : %se3%s%s' % ('kk, ' if kvar else '', 'e2 => ' if key else '', '...' if grp else '', ' if e4' if cond else '')
                    cx.compare('for:' + nm, nm, xs, E, spec, 8)
                    rep.count('for shapes')
    rep.floor('for shapes', 12)


def scopes(cx, coll, kvar, vvar):
    n = cx.vname(coll)
    if n == 'Array':
        items = [(cx.idx(i), x) for i, x in enumerate(coll[4][0][4])]
    elif n == 'Object':
        items = [(cx.V('String', x[4][0]), x[4][1]) for x in coll[4][0][4]]
    else:
        raise Fail()
    for k, v in items:
        d = {cstr(vvar): v}
        if kvar:
            d[cstr(kvar)] = k
        yield tuple(sorted(d.items(), key=repr))


def lookups(cx):
    """Variables and functions: the innermost declaration, else the enclosing contexts, else an error."""
    F, V, rep = cx.F, cx.V, cx.rep
    c = F.adts['hcl::eval::Context']
    X = cx.X
    x, y = ident_(cx, 'x'), ident_(cx, 'y')
    mk = lambda vs, p: struct(F, c, vars=arr(tuple(tup(k, v) for k, v in vs)), funcs=arr(()), parent=some(p) if p else NONE, expr=NONE)
    var = lambda i: X('Variable', ('agg', 'adt', cx.adt('Variable')['id'], 0, (i,)))
    cases = [('own', mk([(x, ('sym', 'a'))], cx.ctx), x, lambda ask: ('sym', 'a')),
             ('own among others', mk([(y, ('sym', 'b')), (x, ('sym', 'a'))], None), x, lambda ask: ('sym', 'a')),
             ('parent', mk([(y, ('sym', 'b'))], mk([(x, ('sym', 'a'))], None)), x, lambda ask: ('sym', 'a')),
             ('shadowed', mk([(x, ('sym', 'b'))], mk([(x, ('sym', 'a'))], None)), x, lambda ask: ('sym', 'b')),
             ('grandparent', mk([], mk([(y, ('sym', 'b'))], mk([(x, ('sym', 'a'))], None))), x, lambda ask: ('sym', 'a')),
             ('far ancestor', mk([], mk([], mk([], mk([(y, ('sym', 'b')), (x, ('sym', 'a'))], mk([(x, ('sym', 'c'))], None))))), x, lambda ask: ('sym', 'a')),
             ('root', mk([(y, ('sym', 'b'))], cx.ctx), x, lambda ask: ask.look('rootvars', cstr('x')))]

    def none(ask):
        raise Fail()
    cases.append(('undeclared', mk([(y, ('sym', 'b'))], mk([], None)), x, none))
    fid = cx.fid('Expression')
    for k, ctx, i, spec in cases:
        xs, E = cx.run(fid, None, args=lambda E: [var(i), ctx])
        cx.compare('lookup:' + k, 'a variable (%s)' % k, xs, E, spec)
        rep.count('lookups')
    # functions
    pt, fd, fa = cx.adt('ParamType'), cx.adt('FuncDef'), cx.adt('FuncArgs')
    fn = lambda n: struct(F, fd, func=('sym', n), params=arr(()), variadic_param=NONE)
    name = struct(F, cx.adt('FuncName'), namespace=arr(()), name=x)
    ns = struct(F, cx.adt('FuncName'), namespace=arr((y,)), name=x)
    mk = lambda fs, p: struct(F, c, vars=arr(()), funcs=arr(tuple(tup(k, v) for k, v in fs)), parent=some(p) if p else NONE, expr=NONE)
    fc = struct(F, cx.adt('FuncCall'), name=name, args=arr(()), expand_final=cbool(False))
    ffid = cx.fid('FuncCall')
    for k, ctx, w in [('own', mk([(ns, fn('fn1')), (name, fn('fn2'))], None), 'fn2'), ('parent', mk([(ns, fn('fn1'))], mk([(name, fn('fn2'))], None)), 'fn2'),
                      ('grandparent', mk([], mk([(ns, fn('fn1'))], mk([(name, fn('fn2'))], None))), 'fn2'),
                      ('far ancestor', mk([], mk([], mk([], mk([(ns, fn('fn1')), (name, fn('fn2'))], mk([(name, fn('fn3'))], None))))), 'fn2'),
                      ('shadowed', mk([(name, fn('fn1'))], mk([(name, fn('fn2'))], None)), 'fn1'),
                      ('shadowed far', mk([], mk([(name, fn('fn1'))], mk([], mk([(name, fn('fn2'))], None)))), 'fn1'), ('undeclared', mk([(ns, fn('fn1'))], None), None)]:
        def spec(ask):
            if w is None:
                raise Fail()
            if ask.called(w) is None:
                raise Bad('the declared function is not called')
            return ('sym', 'called')
        xs, E = cx.run(ffid, None, args=lambda E: [fc, ctx])
        cx.compare('function:' + k, 'a function (%s)' % k, xs, E, spec)
        rep.count('lookups')
    # declaring
    dv, df = find_fn(F, 'hcl', 'Context::declare_var'), find_fn(F, 'hcl', 'Context::declare_func')
    rep.oblige(dv and df, 'declare', 'the declaration functions were not found (anchor)')
    for fid, field, key in ((dv, 'vars', x), (df, 'funcs', name)):
        if not fid:
            continue
        for old in ((), ((y, ('sym', 'w')),), ((key, ('sym', 'w')),)):
            ctx = struct(F, c, vars=arr(()), funcs=arr(()), parent=NONE, expr=NONE)
            ctx = ctx[:4] + (tuple(arr(tuple(tup(k, v) for k, v in old)) if i == cx.ci[field] else z for i, z in enumerate(ctx[4])),)

            def args(E):
                return [('slot', 'ctx', 0, ()), key, ('sym', 'v')]
            h, E = cx.run(fid, None, args=args, env={('ctx', 0): ctx})
            want = dict((k, v) for k, v in old)
            want[key] = ('sym', 'v')
            for st, _ in h:
                got = st.env[('ctx', 0)][4][cx.ci[field]]
                rep.oblige(isarr(got) and dict((z[4][0], z[4][1]) for z in got[4]) == want, 'declare:%s:%d' % (field, len(old)),
                           'declaring a name in a context does not add exactly that declaration to its %s' % field)
            rep.oblige(len(h) == 1, 'declare:%s' % field, 'declaring a name has %d ways through' % len(h))
    rep.floor('lookups', 15)


def run_values(rep):
    F = load()
    cx = Ctx(F, rep)
    rules(rep)
    operators(cx)
    conditional(cx)
    dispatch(cx)
    keys(cx)
    traversal(cx)
    funccall(cx)


def run_scopes(rep):
    F = load()
    cx = Ctx(F, rep)
    rules(rep)
    forexpr(cx)
    lookups(cx)
