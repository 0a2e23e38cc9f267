"""P17: the formatter writes every part, once, in order, laid out as configured, and reports every error of the writer."""
import itertools
from p_eval import *
from text import Text

FMT = 'hcl::format::Format'
WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-')


class FmtH(Text, Conc):
    max_inline = 30
    max_rec = 6
    failing = False
    indent_is = None

    def ucall(self, E, st, c):
        r = self.text_call(E, st, c)
        if r is not None:
            return r
        np, a = c.np, c.args
        n = np.split('::')[-1]
        R = lambda v: E.resume(st, c.ret, v)
        if c.trait == FMT and n == 'format':
            x = E.deref(st, a[0])
            if x[0] == 'sym':
                f = dict(zip(self.fields, E.full(st, a[1])[4]))
                cfg = dict(zip(self.cfields, f['config'][4]))
                cm = f['compact_mode_level'] != cint(0)
                t = ('val', x, f['current_indent'][2], tuple(cm or cfg[k][2] for k in ('compact_arrays', 'compact_objects')))
                r = []
                if self.failing:
                    s = st.copy()
                    s.mon = s.mon + (('failed', x[1]),)
                    r = E.resume(s, c.ret, err(('sym', 'err:' + x[1])))
                st.mon = merge(st.mon + (t,))
                return r + R(ok(UNIT))
        if np.startswith('itoa::'):
            return R(UNIT if n == 'new' else ('toks', (('val', E.full(st, a[1])),)))
        if n == 'parse' and np.startswith('str::'):
            x = E.full(st, a[0])
            return E.resume(st.copy(), c.ret, ok(('sym', 'parsed'))) + R(err(('sym', 'no template')))
        t = E.strip(c.targs[0]) if c.targs else None
        if np in ('string::ToString::to_string', 'fmt::Display::fmt') and t and t[0] == 'adt' and t[1].startswith(('hcl_edit::', 'hcl_primitives::number')):
            x = ('toks', (('val', E.full(st, a[0])),))
            return R(x) if n == 'to_string' else self.emit(E, st, a[1], x[1], c.ret)
        if np.split('::')[-1] in ('is_xid_start', 'is_xid_continue'):
            x = E.deref(st, a[0])
            if x[0] == 'const' and x[1] == 'char':
                ch = self.ch(x)
                return R(cbool(ch.isidentifier() and ch != '_' if n == 'is_xid_start' else ('a' + ch).isidentifier()))
        if np == 'slice::impl::windows':
            v, k = E.deref(st, a[0]), E.deref(st, a[1])
            if isarr(v) and k[0] == 'const':
                return R(('it', 'list', tuple(arr(v[4][i:i + k[2]]) for i in range(len(v[4]) - k[2] + 1)), 0))
        return None

    def emit(self, E, st, dst, toks, ret):
        d = E.deref(st, dst)
        if self.failing and self.is_sink(E, st, d):
            s = st.copy()
            s.mon = s.mon + (('failed', 'write'),)
            return E.resume(s, ret, err(('sym', 'err:write'))) + Conc.emit(self, E, st, dst, toks, ret)
        return Conc.emit(self, E, st, dst, toks, ret)

    def toks_of(self, E, st, x):
        x = E.full(st, x)
        if x[0] == 'const' and x[1] in ('bytes', 'mem'):
            b = bytes.fromhex(x[2]) if isinstance(x[2], str) else bytes(x[2])
            return (('lit', b.decode('utf-8', 'replace')),)
        if isarr(x) and all(y[0] == 'const' and y[1] in ('int', 'bits') for y in x[4]):
            return (('lit', bytes(int(y[2]) for y in x[4]).decode('utf-8', 'replace')),)
        return Conc.toks_of(self, E, st, x)


def space(ts):
    """One spelling for optional spaces between tokens."""
    out = []
    for t in ts:
        if t[0] != 'lit':
            out.append(t)
            continue
        s, i = '', 0
        for j, ch in enumerate(t[1]):
            if ch == ' ':
                prev = s[-1] if s else ('v' if out else '\n')
                k = j
                while k < len(t[1]) and t[1][k] == ' ':
                    k += 1
                nxt = t[1][k] if k < len(t[1]) else 'v'
                if not (prev in WORD and nxt in WORD) or prev == ' ':
                    continue
            s += ch
        if s:
            out.append(('lit', s))
    return merge(out)


class Gen:
    """Terms and the text they must be written as."""
    def __init__(self, cx, indent='>>', dense=False, ca=False, co=False, pk=False):
        self.cx, self.F = cx, cx.F
        self.ind, self.dense, self.ca, self.co, self.pk = indent, dense, ca, co, pk

    def st(self, n, **k):
        return struct(self.F, self.cx.adt(n), **k)

    def var(self, n, v, *f):
        return variant(self.F, self.cx.adt(n), v, *f)

    def strip(self, s):
        names = {(False, False): 'None', (True, False): 'Start', (False, True): 'End', (True, True): 'Both'}
        return variant(self.F, adt_named(self.F, 'hcl_primitives', 'Strip'), names[s])

    def ident(self, s):
        return ident_(self.cx, s)

    # ---- terms
    def term(self, x):
        X, g = self.cx.X, self.term
        if isinstance(x, str):
            return ('sym', x)
        k = x[0]
        if k == 'array':
            return X('Array', arr(tuple(map(g, x[1]))))
        if k == 'object':
            return X('Object', arr(tuple(tup(self.key(a), g(b)) for a, b in x[1])))
        if k == 'null':
            return X('Null')
        if k == 'bool':
            return X('Bool', cbool(x[1]))
        if k == 'num':
            return X('Number', ('agg', 'adt', 'hcl_primitives::number::Number', 0, (('sym', 'n'),)))
        if k == 'str':
            return X('String', cstr(x[1]))
        if k == 'var':
            return X('Variable', ('agg', 'adt', self.cx.adt('Variable')['id'], 0, (self.ident(x[1]),)))
        if k == 'paren':
            return X('Parenthesis', g(x[1]))
        if k == 'call':
            return X('FuncCall', self.st('FuncCall', name=self.st('FuncName', namespace=arr(tuple(map(self.ident, x[1]))), name=self.ident(x[2])),
                                         args=arr(tuple(map(g, x[3]))), expand_final=cbool(x[4])))
        if k == 'cond':
            return X('Conditional', self.st('Conditional', cond_expr=g(x[1]), true_expr=g(x[2]), false_expr=g(x[3])))
        if k == 'un':
            o = adt_named(self.F, 'hcl_primitives', 'UnaryOperator')
            return X('Operation', self.var('Operation', 'Unary', self.st('UnaryOp', operator=variant(self.F, o, x[1]), expr=g(x[2]))))
        if k == 'bin':
            o = adt_named(self.F, 'hcl_primitives', 'BinaryOperator')
            return X('Operation', self.var('Operation', 'Binary', self.st('BinaryOp', lhs_expr=g(x[2]), operator=variant(self.F, o, x[1]), rhs_expr=g(x[3]))))
        if k == 'trav':
            ops = []
            for o in x[2]:
                ops.append(self.var('TraversalOperator', o[0], *([self.ident(o[1])] if o[0] == 'GetAttr' else [('sym', 'index')] if o[0] == 'LegacyIndex'
                                                                 else [g(o[1])] if o[0] == 'Index' else [])))
            return X('Traversal', self.st('Traversal', expr=g(x[1]), operators=arr(tuple(ops))))
        if k == 'for':
            _, kv, vv, coll, ke, ve, cond, grp = x
            return X('ForExpr', self.st('ForExpr', key_var=some(self.ident(kv)) if kv else NONE, value_var=self.ident(vv), collection_expr=g(coll),
                                        key_expr=some(g(ke)) if ke else NONE, value_expr=g(ve), cond_expr=some(g(cond)) if cond else NONE,
                                        grouping=cbool(grp)))
        if k == 'quoted':
            return X('TemplateExpr', self.var('TemplateExpr', 'QuotedString', cstr(x[1])))
        if k == 'heredoc':
            sm = self.cx.adt('HeredocStripMode')
            return X('TemplateExpr', self.var('TemplateExpr', 'Heredoc', self.st('Heredoc', delimiter=self.ident('EOT'), template=cstr(x[2]),
                     strip=variant(self.F, sm, 'Indent' if x[1] else 'None'))))
        raise KeyError(k)

    def key(self, a):
        if a[0] == 'ident':
            return self.var('ObjectKey', 'Identifier', self.ident(a[1]))
        return self.var('ObjectKey', 'Expression', self.term(a[1]))

    def structure(self, s):
        if s[0] == 'attr':
            return self.var('Structure', 'Attribute', self.st('Attribute', key=self.ident(s[1]), expr=self.term(s[2])))
        return self.var('Structure', 'Block', self.block(s))

    def block(self, s):
        ls = tuple(self.var('BlockLabel', 'Identifier', self.ident(l[1])) if l[0] == 'ident' else self.var('BlockLabel', 'String', cstr(l[1])) for l in s[2])
        return self.st('Block', identifier=self.ident(s[1]), labels=arr(ls), body=self.body(s[3]))

    def body(self, ss):
        return ('agg', 'adt', self.cx.adt('Body')['id'], 0, (arr(tuple(map(self.structure, ss))),))

    # ---- texts
    def lit(self, s):
        return [('lit', s)]

    def fmt(self, x, d, ca=None, co=None):
        ca = self.ca if ca is None else ca
        co = self.co if co is None else co
        L, g = self.lit, lambda y: self.fmt(y, d, ca, co)
        if isinstance(x, str):
            return [('val', ('sym', x), d, (ca, co))]
        k = x[0]
        nl = lambda n: L('\n' + self.ind * n)
        if k == 'array':
            out = L('[')
            for i, y in enumerate(x[1]):
                out += (L(', ') if i else []) if ca else (L(',') if i else []) + nl(d + 1)
                out += self.fmt(y, d + (not ca), ca, co)
            return out + (nl(d) if x[1] and not ca else []) + L(']')
        if k == 'object':
            out = L('{')
            for i, (a, y) in enumerate(x[1]):
                out += L(', ' if i else ' ') if co else nl(d + 1)
                out += self.fkey(a, d + (not co), ca, co) + L(' = ') + self.fmt(y, d + (not co), ca, co)
            return out + ((L(' ') if co else nl(d)) if x[1] else []) + L('}')
        if k == 'null':
            return L('null')
        if k == 'bool':
            return L('true' if x[1] else 'false')
        if k == 'num':
            return [('val', ('agg', 'adt', 'hcl_primitives::number::Number', 0, (('sym', 'n'),)))]
        if k == 'str':
            return L('"%s"' % x[1])
        if k == 'var':
            return L(x[1])
        if k == 'paren':
            return L('(') + g(x[1]) + L(')')
        if k == 'call':
            out = L('::'.join(list(x[1]) + [x[2]]) + '(')
            for i, y in enumerate(x[3]):
                out += (L(', ') if i else []) + self.fmt(y, d, True, True)
            return out + L('...)' if x[4] else ')')
        if k == 'cond':
            f = lambda y: self.fmt(y, d, True, True)
            return f(x[1]) + L(' ? ') + f(x[2]) + L(' : ') + f(x[3])
        if k == 'un':
            return L({'Neg': '-', 'Not': '!'}[x[1]]) + g(x[2])
        if k == 'bin':
            return g(x[2]) + L(' ' + OPS[x[1]] + ' ') + g(x[3])
        if k == 'trav':
            out = g(x[1])
            for o in x[2]:
                out += {'AttrSplat': lambda: L('.*'), 'FullSplat': lambda: L('[*]'), 'GetAttr': lambda: L('.' + o[1]),
                        'LegacyIndex': lambda: L('.') + [('val', ('sym', 'index'))], 'Index': lambda: L('[') + g(o[1]) + L(']')}[o[0]]()
            return out
        if k == 'for':
            _, kv, vv, coll, ke, ve, cond, grp = x
            out = L('{' if ke else '[') + L('for ' + (kv + ', ' if kv else '') + vv + ' in ') + g(coll) + L(' : ')
            if ke:
                out += g(ke) + L(' => ')
            out += g(ve)
            if ke and grp:
                out += L('...')
            if cond:
                out += L(' if ') + g(cond)
            return out + L('}' if ke else ']')
        if k == 'quoted':
            return [('quoted', x[1])]
        if k == 'heredoc':
            t = x[2] if not x[2] or x[2].endswith('\n') else x[2] + '\n'
            return L('<<' + ('-' if x[1] else '') + 'EOT\n' + t + (self.ind * d if x[1] else '') + 'EOT')
        raise KeyError(k)

    def fkey(self, a, d, ca, co):
        if a[0] == 'ident':
            return self.lit(a[1])
        if a[1][0] == 'str' and self.pk and a[1][1].isidentifier():
            return self.lit(a[1][1])
        return self.fmt(a[1], d, ca, co)

    def fbody(self, ss, d=0):
        out, last = [], None
        for s in ss:
            k = s[0]
            if last and not self.dense and (k, last) != ('attr', 'attr'):
                out += self.lit('\n')
            out += self.fstruct(s, d)
            last = k
        return out

    def fstruct(self, s, d=0):
        out = self.lit(self.ind * d)
        if s[0] == 'attr':
            return out + self.lit(s[1] + ' = ') + self.fmt(s[2], d) + self.lit('\n')
        out += self.lit(s[1] + ''.join(' ' + (l[1] if l[0] == 'ident' else '"%s"' % l[1]) for l in s[2]) + ' {')
        if s[3]:
            out += self.lit('\n') + self.fbody(s[3], d + 1) + self.lit(self.ind * d)
        elif d:
            out += [('maybe', self.ind * d)]
        return out + self.lit('}\n')


OPS = {'Eq': '==', 'NotEq': '!=', 'LessEq': '<=', 'GreaterEq': '>=', 'Less': '<', 'Greater': '>', 'Plus': '+', 'Minus': '-', 'Mul': '*',
       'Div': '/', 'Mod': '%', 'And': '&&', 'Or': '||'}


def run(rep):
    F = load()
    cx = Ctx(F, rep)
    rep.rule('On every path the text written for a node is the text the grammar and the layout options give for it, with every part once '
             'and in order; after an error of the writer nothing is written and that error is returned.')
    fa, ca, sa = (adt_named(F, 'hcl', n) for n in ('Formatter', 'FormatConfig', 'FormatState'))
    if not (fa and ca and sa):
        rep.oblige(False, 'anchor', 'the formatter was not found (anchor)')
        return
    FmtH.fields = [f['name'] for f in fa['variants'][0]['fields']]
    FmtH.cfields = [f['name'] for f in ca['variants'][0]['fields']]
    impls = {}
    for im in F.impls:
        if im['traitid'] == FMT and im['selfty'][0] == 'adt':
            impls[im['selfty'][1].split('::')[-1]] = {it['name']: it['id'] for it in im['items']}
    build = find_fn(F, 'hcl', 'FormatterBuilder::build')
    rep.oblige(build is not None, 'anchor:build', 'the formatter builder was not found (anchor)')
    E1, E2, E3 = ('sym', 'e1'), ('sym', 'e2'), ('sym', 'e3')

    made, failed = {}, set()

    def formatter(g):
        """The formatter the builder makes for a configuration."""
        k = (g.ind, g.dense, g.ca, g.co, g.pk)
        if k not in made:
            made[k] = formatter1(g)
        return made[k]

    def formatter1(g):
        b = struct(F, adt_named(F, 'hcl', 'FormatterBuilder'), config=struct(F, ca, indent=cstr(g.ind), dense=cbool(g.dense), compact_arrays=cbool(g.ca),
                                                                            compact_objects=cbool(g.co), prefer_ident_keys=cbool(g.pk)))
        xs, E = cx.run(build, None, None, args=lambda E: [b, ('sym', 'out')], hooks=FmtH)
        return xs[0][1] if len(xs) == 1 else None

    def go(key, what, g, ty, term, want, shape=''):
        fid = impls.get(ty, {}).get('format')
        rep.oblige(fid is not None, 'anchor:' + ty, 'the formatting of %s was not found (anchor)' % ty)
        fm = formatter(g)
        if fid is None or fm is None:
            return
        want = space(merge(want))
        try:
            xs, E = cx.run(fid, None, None, args=lambda E: [term, ('slot', 'fm', 0, ())], env={('fm', 0): fm}, hooks=FmtH)
        except Limit as e:
            rep.oblige(False, key, '%s: %s' % (what, e))
            return
        rep.count('formatted nodes')
        rep.oblige(bool(xs), key + ':paths', '%s is never formatted' % what)
        for st, v in xs:
            good = v[0] == 'agg' and v[2] == RES and v[3] == 0
            got = space(st.mon)
            fit = match(got, want)
            rep.oblige(good and fit, key, '%s with %s is written as %s and not as %s' % (what, cfgname(g), show(E, got), show(E, want)) if good else
                       '%s fails without an error of the writer (%s)' % (what, E.show(v)))
            f0, f1 = (dict(zip(FmtH.fields, y[4])) for y in (fm, E.full(st, st.env[('fm', 0)])))
            for n in ('current_indent', 'compact_mode_level', 'config'):
                rep.oblige(f0[n] == f1[n], '%s:%s' % (key, n), '%s: the %s of the formatter is not restored' % (what, n.replace('_', ' ')))
        k = (key, shape, cfgname(g), want if cfgname(g) == 'default options' and len(want) < 12 else 0)
        if shape is None or k in failed:
            return
        failed.add(k)
        try:
            xs, E = cx.run(fid, None, None, args=lambda E: [term, ('slot', 'fm', 0, ())], env={('fm', 0): fm}, hooks=FmtH, failing=True)
        except Limit as e:
            rep.oblige(False, key, '%s: %s' % (what, e))
            return
        for st, v in xs:
            bad = [i for i, m in enumerate(st.mon) if m[0] == 'failed']
            if not bad:
                continue
            rep.count('failing writes')
            m = st.mon[bad[0]]
            rep.oblige(bad[0] == len(st.mon) - 1, key + ':after', '%s: writing goes on after an error (of %s)' % (what, m[1]))
            rep.oblige(v[0] == 'agg' and v[2] == RES and v[3] == 1 and contains(v, ('sym', 'err:' + m[1])), key + ':err',
                       '%s: an error while writing %s is not reported' % (what, 'a part' if m[1] == 'write' else m[1]))

    def match(got, want):
        """want may hold places where an indent may be written, and templates."""
        if any(w[0] == 'maybe' for w in want):
            i = [w[0] for w in want].index('maybe')
            a = merge(want[:i] + want[i + 1:])
            b = merge(want[:i] + (('lit', want[i][1]),) + want[i + 1:])
            return match(got, a) or match(got, b)
        if len(got) != len(want) and not any(w[0] == 'quoted' for w in want):
            return False
        if any(w[0] == 'quoted' for w in want):
            i = [w[0] for w in want].index('quoted')
            esc = want[i][1].replace('${', '$${').replace('%{', '%%{')
            alt = merge(want[:i] + (('lit', '"%s"' % esc),) + want[i + 1:])
            if got == alt:
                return True
            if len(got) != len(want):
                return False
            x = got[i]
            if not (x[0] == 'val' and x[1][0] == 'agg' and F.vname(x[1][2], x[1][3]) == 'StringTemplate' and contains(x[1], ('sym', 'parsed'))):
                return False
            return got[:i] + got[i + 1:] == want[:i] + want[i + 1:]
        return got == want

    def show(E, ts):
        return repr(''.join(t[1] if t[0] == 'lit' else '<%s%s>' % (E.show(t[1]) if isinstance(t[1], tuple) else t[1], ' at %s%s' % (
            t[2], ' compact' if t[3] == (True, True) else '') if len(t) > 3 else '') for t in ts))

    def cfgname(g):
        xs = [n for n, b in (('dense', g.dense), ('compact arrays', g.ca), ('compact objects', g.co), ('identifier keys', g.pk)) if b]
        return ', '.join(xs) or 'default options'

    def X(key, what, g, x, d=0):
        """An expression, by itself and as the value of a nested attribute."""
        go('expr:' + key, what, g, 'Expression', g.term(x), g.fmt(x, 0))

    cfgs = [Gen(cx), Gen(cx, ca=True), Gen(cx, co=True), Gen(cx, ca=True, co=True)]
    ik = ('ident', 'k')
    for g in cfgs:
        nm = cfgname(g)
        for n in range(0, 4):
            X('array%d' % n, 'an array of %d' % n, g, ('array', ['e%d' % (i + 1) for i in range(n)]))
        for n in range(0, 3):
            X('object%d' % n, 'an object of %d' % n, g, ('object', [(('ident', 'k%d' % i), 'e%d' % (i + 1)) for i in range(n)]))
        inner = [('array', ['e1', 'e2']), ('array', []), ('object', [(ik, 'e1')]), ('object', [])]
        for i, a in enumerate(inner):
            X('nested:array', 'an array of arrays and objects', g, ('array', ['e3', a, 'e4']))
            X('nested:arrayfirst', 'an array of arrays and objects', g, ('array', [a, a]))
            X('nested:object', 'an object of arrays and objects', g, ('object', [(ik, a), (('ident', 'l'), 'e3')]))
            X('nested:call', 'a call with arrays and objects', g, ('array', [('call', [], 'f', [a, 'e3'], False), a, 'e4']))
            X('nested:call', 'a call with calls', g, ('call', [], 'f', [('call', [], 'g', [a], False), a, ('cond', 'e1', a, 'e2'), a], False))
            X('nested:cond', 'a conditional with calls', g, ('cond', ('call', [], 'g', [a], False), ('cond', a, a, a), a))
            X('nested:for', 'a for expression with arrays and objects', g, ('array', [('for', None, 'v', a, None, a, a, False), a]))
            X('nested:forcall', 'a for expression with arrays and objects', g, ('call', [], 'f', [('for', 'k', 'v', a, 'e1', a, a, True), a], True))
            X('nested:op', 'an operation with arrays and objects', g, ('array', [('bin', 'Plus', a, ('un', 'Not', ('paren', a))), ('trav', a, [('Index', a)])]))
            X('nested:cond', 'a conditional with arrays and objects', g, ('array', [('cond', 'e1', a, a), a, 'e4']))
            go('attr:nested', 'an attribute', g, 'Body', g.body([('attr', 'x', a), ('block', 'b', [], [('attr', 'y', ('array', [a, 'e3']))])]),
               g.fbody([('attr', 'x', a), ('block', 'b', [], [('attr', 'y', ('array', [a, 'e3']))])]))
    for pk in (False, True):
        g = Gen(cx, pk=pk)
        for k in (ik, ('expr', ('str', 'a')), ('expr', ('str', 'a b')), ('expr', ('paren', 'e1')), ('expr', ('var', 'x')), ('expr', ('num',)), ('expr', ('str', ''))):
            X('key', 'an object key', g, ('object', [(k, 'e2')]))
    g = cfgs[0]
    X('null', 'null', g, ('null',))
    for b in (True, False):
        X('bool', 'a boolean', g, ('bool', b))
    X('num', 'a number', g, ('num',))
    X('str', 'a string', g, ('str', 'abc'))
    X('str', 'a string', g, ('str', ''))
    X('var', 'a variable', g, ('var', 'v'))
    X('paren', 'parentheses', g, ('paren', 'e1'))
    for ns in ([], ['a'], ['a', 'b']):
        for n in range(0, 4):
            for ex in (False, True):
                X('call', 'a function call', g, ('call', ns, 'f', ['e%d' % (i + 1) for i in range(n)], ex))
    X('cond', 'a conditional', g, ('cond', 'e1', 'e2', 'e3'))
    for o in ('Neg', 'Not'):
        X('un', 'a unary operation', g, ('un', o, 'e1'))
    for o in OPS:
        X('bin', 'a binary operation', g, ('bin', o, 'e1', 'e2'))
    ops = [('AttrSplat',), ('FullSplat',), ('GetAttr', 'a'), ('LegacyIndex',), ('Index', 'e2')]
    for n in range(0, 3):
        for os_ in itertools.product(ops, repeat=n):
            X('trav', 'a traversal', g, ('trav', 'e1', list(os_)))
    for kv in (None, 'k'):
        for ke in (None, 'e2'):
            for cond in (None, 'e4'):
                for grp in (False, True):
                    X('for', 'a for expression', g, ('for', kv, 'v', 'e1', ke, 'e3', cond, grp))
    X('quoted', 'a quoted template', g, ('quoted', 'abc'))
    for b in (False, True):
        for t in ('', 'a', 'a\n', 'a\nb\n', '\n'):
            X('heredoc', 'a heredoc', g, ('heredoc', b, t))
            y = [('block', 'b', [], [('attr', 'x', ('heredoc', b, t))])]
            go('heredoc:nested', 'a heredoc in a block', g, 'Body', g.body(y), g.fbody(y))
    # values
    V, vn = cx.V, ('sym', 'v1')
    num = ('agg', 'adt', 'hcl_primitives::number::Number', 0, (('sym', 'n'),))
    for x, w in ((V('Null'), g.lit('null')), (V('Bool', cbool(True)), g.lit('true')), (V('Bool', cbool(False)), g.lit('false')),
                 (V('Number', num), [('val', num)]), (V('String', cstr('abc')), g.lit('"abc"')), (V('String', cstr('${x}')), [('quoted', '${x}')])):
        go('value', 'a value', g, 'Value', x, w)
    for g2 in cfgs:
        for n in range(0, 3):
            go('value:array', 'an array value', g2, 'Value', V('Array', arr(tuple(('sym', 'e%d' % i) for i in range(n)))), g2.fmt(('array', ['e%d' % i for i in range(n)]), 0))
            ks = ['k%d' % i for i in range(n)]
            go('value:object', 'an object value', g2, 'Value', V('Object', arr(tuple(tup(cstr(k), ('sym', 'e' + k)) for k in ks))),
               g2.fmt(('object', [(('expr', ('str', k)), 'e' + k) for k in ks]), 0))
    gp = Gen(cx, pk=True)
    go('value:object', 'an object value', gp, 'Value', V('Object', arr((tup(cstr('k'), E1), tup(cstr('a b'), E2)))),
       gp.fmt(('object', [(('expr', ('str', 'k')), 'e1'), (('expr', ('str', 'a b')), 'e2')]), 0))
    # structures
    at, at2 = ('attr', 'x', 'e1'), ('attr', 'y', 'e2')
    bl = lambda *s, l=(): ('block', 'b', list(l), list(s))
    seqs = [s for n in range(0, 3) for s in itertools.product((at, at2, bl(), bl(at), bl(bl(at), at2), bl(at, bl())), repeat=n)]
    seqs += [(at, bl(at2), at), (bl(), at, bl()), (bl(bl(bl(at), bl()), at),), (bl(at, at2, l=(('ident', 'l'), ('str', 's'))),), (bl(l=(('str', 's'),)),),
             (at, at2, ('attr', 'z', 'e3'), bl(at), bl(at2))]
    for dense in (False, True):
        g3 = Gen(cx, dense=dense)
        for s in seqs:
            go('body', 'a body', g3, 'Body', g3.body(s), g3.fbody(s))
    for ty, x, w in (('Attribute', g.structure(at)[4][0], g.fstruct(at)), ('Structure', g.structure(at), g.fstruct(at)),
                     ('Block', g.block(bl(at)), g.fstruct(bl(at))), ('Structure', g.structure(bl(at)), g.fstruct(bl(at)))):
        go('structure', 'a structure', g, ty, x, w)
    # templates
    S4 = ((False, False), (True, False), (False, True), (True, True))
    mk = lambda s: ('~' if s[0] else '', '~' if s[1] else '')
    el = lambda v, x: g.var('Element', v, x)
    ta = cx.adt('Template')
    tpl = lambda *xs: ('agg', 'adt', ta['id'], 0, (arr(tuple(xs)),))
    lit = lambda s: el('Literal', cstr(s))
    val = lambda n: [('val', ('sym', n), 0, (False, False))]
    tag = lambda s, *p: [('lit', '%{' + mk(s)[0] + ' ')] + [y for z in p for y in (g.lit(z) if isinstance(z, str) else z)] + [('lit', ' ' + mk(s)[1] + '}')]
    for s in S4:
        it = g.st('Interpolation', expr=E1, strip=g.strip(s))
        w = g.lit('${' + mk(s)[0]) + val('e1') + g.lit(mk(s)[1] + '}')
        go('tpl:int', 'an interpolation', g, 'Interpolation', it, w)
        go('tpl:seq', 'a template', g, 'Template', tpl(lit('a'), el('Interpolation', it), lit('b')), g.lit('a') + w + g.lit('b'))
    for s1, s2 in itertools.product(S4, repeat=2):
        for kv in (None, 'k'):
            fd = g.st('ForDirective', key_var=some(g.ident(kv)) if kv else NONE, value_var=g.ident('v'), collection_expr=E1, template=('sym', 't1'),
                      for_strip=g.strip(s1), endfor_strip=g.strip(s2))
            w = tag(s1, 'for ' + (kv + ', ' if kv else '') + 'v in ', val('e1')) + val('t1') + tag(s2, 'endfor')
            go('tpl:for', 'a for directive', g, 'ForDirective', fd, w)
        d = el('Directive', variant(F, cx.adt('Directive'), 'For', fd))
        go('tpl:fordir', 'a template with a for directive', g, 'Template', tpl(d), w)
        for s3 in S4:
            for els in (False, True):
                i = g.st('IfDirective', cond_expr=E1, true_template=('sym', 't1'), false_template=some(('sym', 't2')) if els else NONE,
                         if_strip=g.strip(s1), else_strip=g.strip(s2), endif_strip=g.strip(s3))
                w = tag(s1, 'if ', val('e1')) + val('t1') + (tag(s2, 'else') + val('t2') if els else []) + tag(s3, 'endif')
                go('tpl:if', 'an if directive', g, 'IfDirective', i, w, shape=els)
    entry(rep, F, cx, impls)
    rep.floor('formatted nodes', 500)
    rep.floor('failing writes', 2000)


class EntryH(FmtH):
    """The writer is a vector or a given writer; formatting a node writes its text to it or fails."""
    def ucall(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        if c.trait == FMT and n == 'format' and E.deref(st, a[0])[0] == 'sym':
            f = dict(zip(self.fields, E.full(st, a[1])[4]))
            cfg = dict(zip(self.cfields, f['config'][4]))
            t = ('val', E.deref(st, a[0]), f['current_indent'], f['compact_mode_level'], tuple((k, cfg[k]) for k in self.cfields))
            s = st.copy()
            s.mon = ('failed',)
            out = E.resume(s, c.ret, err(('sym', 'err')))
            slot = a[1]
            while E.load(st, slot)[0] == 'slot':
                slot = E.load(st, slot)
            w = slot[:3] + (slot[3] + ((None, self.fields.index('writer')),),)
            while E.load(st, w)[0] == 'slot':
                w = E.load(st, w)
            v = E.full(st, w)
            if self.is_sink(E, st, v):
                st.mon = st.mon + (t,)
            elif v[0] == 'toks' or isarr(v):
                E.store(st, w, ('toks', merge(self.toks_of(E, st, v) + (t,))))
            else:
                return None
            return out + E.resume(st, c.ret, ok(UNIT))
        if a and n in ('split_off', 'drain', 'clone', 'to_vec', 'into_inner', 'take', 'into_bytes', 'into_boxed_slice', 'extend', 'extend_from_slice') \
                or n in ('from_utf8', 'from_utf8_unchecked'):
            v = E.full(st, a[0])
            if v[0] == 'toks' and n in ('split_off', 'take') and (len(a) == 1 or E.deref(st, a[1]) == cint(0)):
                slot = a[0]
                while E.load(st, slot)[0] == 'slot':
                    slot = E.load(st, slot)
                E.store(st, slot, ('toks', ()))
                return E.resume(st, c.ret, v)
            if v[0] == 'toks' and n in ('clone', 'to_vec', 'into_bytes'):
                return E.resume(st, c.ret, v)
            if v[0] == 'toks' and n == 'from_utf8':
                s = st.copy()
                s.mon = ('invalid',)
                return E.resume(st, c.ret, ok(v)) + E.resume(s, c.ret, err(('sym', 'invalid')))
        return FmtH.ucall(self, E, st, c)


def entry(rep, F, cx, impls):
    """The functions around the formatting of nodes: what they write, return and report."""
    rep.rule('The entry points format the value once with a fresh formatter of default options, hand out exactly what was written and '
             'report the error of the value.')
    EntryH.fields, EntryH.cfields = FmtH.fields, FmtH.cfields
    for name, pre, post in (('format::to_string', '', ''), ('format::to_vec', '', ''), ('format::to_writer', '', ''),
                            ('format::to_interpolated_string', '${', '}')):
        f = 'hcl::' + name if 'hcl::' + name in F.fns else None
        rep.oblige(f is not None, 'anchor:' + name, '%s was not found (anchor)' % name)
        if f is None:
            continue
        w = name.endswith('writer')
        xs, E = cx.run(f, None, {g: ('adt', EXP, ()) for g in F.fns[f]['generics'] if g != 'W'}, args=lambda E: [('sym', 'out'), ('sym', 'e1')] if w else [('sym', 'e1')], hooks=EntryH,
                       symty={'e1': ('adt', EXP, ())})
        rep.oblige(bool(xs), name, '%s never returns' % name)
        nok = 0
        for st, v in xs:
            rep.count('entry point paths')
            if st.mon and st.mon[0] in ('failed', 'invalid'):
                good = v[0] == 'agg' and v[2] == RES and v[3] == 1 and (st.mon[0] == 'invalid' or contains(v, ('sym', 'err')))
                rep.oblige(good, name + ':' + st.mon[0], '%s does not report %s' % (name, 'the error of formatting the value' if st.mon[0] == 'failed'
                                                                                  else 'text that is not UTF-8'))
                continue
            nok += 1
            if not (v[0] == 'agg' and v[2] == RES and v[3] == 0):
                rep.oblige(False, name, '%s fails without a reason (%s)' % (name, E.show(v)))
                continue
            got = tuple(st.mon) if w else E.full(st, v[4][0])
            got = got if w else got[1] if got[0] == 'toks' else None
            want = ['lit', 'val', 'lit'] if pre else ['val']
            good = got is not None and [t[0] for t in got] == want and (not pre or (got[0][1], got[2][1]) == (pre, post))
            rep.oblige(good, name, '%s does not return exactly the text of the value' % name)
            if not good:
                continue
            t = got[1 if pre else 0]
            cfg = dict(t[4])
            comp = cbool(bool(pre))
            rep.oblige(t[1] == ('sym', 'e1') and t[2] == cint(0) and t[3] == cint(0), name + ':state', '%s does not start with a fresh formatter' % name)
            for k, x in cfg.items():
                ref = comp if k.startswith('compact') else cbool(False)
                y = x
                if k == 'indent':
                    txt = EntryH.toks_of(EntryH(), E, st, x)
                    rep.oblige(txt == (('lit', '  '),), name + ':indent', '%s does not indent by two spaces' % name)
                    continue
                rep.oblige(y == ref, '%s:%s' % (name, k), '%s formats with the option %s set to %s' % (name, k, E.show(y)))
        rep.oblige(nok > 0, name + ':ok', '%s never succeeds' % name)
    rep.floor('entry point paths', 9)
