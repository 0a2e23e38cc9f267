"""P08: templates evaluate to their pieces, trimmed exactly where a strip marker says so."""
from p_eval import *
from text import Text, text, chars, norm, SPACE


class TplH(Text, EvalH):
    def ucall(self, E, st, c):
        r = self.text_call(E, st, c)
        return r if r is not None else EvalH.ucall(self, E, st, c)


STRIPS = ((False, False), (True, False), (False, True), (True, True))
# literal texts: pieces of white space, line breaks and other characters; upper-case names are runs
S, T, V_, U, X, LF, CR = (' ', True), ('\t', True), ('\x0b', True), ('\xa0', True), ('x', True), ('\n', False), ('\r', False)
EDGE = ((), (S,), (T, S), (V_,), (U, S), (S, CR), (S, LF), (S, CR, LF), (LF,), (CR, LF), (T, LF, S), (S, LF, LF, S), (CR, LF, CR, LF),
        (LF, S, LF), (CR, S), (CR, CR, LF))


def trim(cs, start):
    cs = list(cs) if start else list(reversed(cs))
    while cs and cs[0][0] in SPACE and cs[0][0] not in '\r\n':
        cs.pop(0)
    if start:
        if cs[:2] == [CR, LF]:
            cs = cs[2:]
        elif cs[:1] == [LF]:
            cs = cs[1:]
    else:
        if cs[:2] == [LF, CR]:
            cs = cs[2:]
        elif cs[:1] == [LF]:
            cs = cs[1:]
    return tuple(cs) if start else tuple(reversed(cs))


def strip(cs, prev, nxt):
    """prev, nxt: whether the marker of the neighbour points at this literal."""
    if prev:
        cs = trim(cs, True)
    if nxt:
        cs = trim(cs, False)
    return cs


class B:
    """Builds template terms and, next to them, what they evaluate to."""

    def __init__(self, cx):
        self.cx, F = cx, cx.F
        self.F = F
        self.a = {n: cx.adt(n) for n in ('Element', 'Template', 'Interpolation', 'Directive', 'IfDirective', 'ForDirective', 'TemplateExpr')}
        self.strip = adt_named(F, 'hcl_primitives', 'Strip')
        self.names = {(False, False): 'None', (True, False): 'Start', (False, True): 'End', (True, True): 'Both'}

    def S(self, s):
        return variant(self.F, self.strip, self.names[s])

    def lit(self, cs):
        return ('lit', cs)

    def term(self, t):
        F, a = self.F, self.a
        k = t[0]
        if k == 'lit':
            return variant(F, a['Element'], 'Literal', text(t[1]))
        if k == 'int':
            return variant(F, a['Element'], 'Interpolation', struct(F, a['Interpolation'], expr=('sym', t[1]), strip=self.S(t[2])))
        if k == 'if':
            d = struct(F, a['IfDirective'], cond_expr=('sym', t[1]), true_template=self.tpl(t[2]),
                       false_template=NONE if t[3] is None else some(self.tpl(t[3])), if_strip=self.S(t[4]), else_strip=self.S(t[5]),
                       endif_strip=self.S(t[6]))
            return variant(F, a['Element'], 'Directive', variant(F, a['Directive'], 'If', d))
        d = struct(F, a['ForDirective'], key_var=some(ident_(self.cx, 'kk')) if t[4] else NONE, value_var=ident_(self.cx, 'vv'),
                   collection_expr=('sym', t[1]), template=self.tpl(t[2]), for_strip=self.S(t[3][0]), endfor_strip=self.S(t[3][1]))
        return variant(F, a['Element'], 'Directive', variant(F, a['Directive'], 'For', d))

    def tpl(self, es):
        return struct(self.F, self.a['Template'], elements=arr(tuple(self.term(e) for e in es)))

    def outer(self, e):
        """(marker at the start, marker at the end) of an element."""
        if e[0] == 'lit':
            return (False, False)
        if e[0] == 'int':
            return e[2]
        if e[0] == 'if':
            return (e[4][0], e[6][1])
        return (e[3][0][0], e[3][1][1])

    def out(self, ask, es, prev=False, nxt=False, binds=()):
        """The tokens of the text."""
        cx = self.cx
        ts = ()
        for i, e in enumerate(es):
            p = self.outer(es[i - 1])[1] if i else prev
            q = self.outer(es[i + 1])[0] if i + 1 < len(es) else nxt
            if e[0] == 'lit':
                x = text(strip(e[1], p, q))
                ts += (('lit', x[2]),) if x[0] == 'const' else x[1]
            elif e[0] == 'int':
                v = ask(e[1], binds)
                ts += (('val', v[4][0]),) if cx.vname(v) == 'String' else (('val', v),)
            elif e[0] == 'if':
                c = ask(e[1], binds)
                if cx.vname(c) != 'Bool':
                    raise Fail()
                if c[4][0][2]:
                    ts += self.out(ask, e[2], e[4][1], (e[5] if e[3] is not None else e[6])[0], binds)
                elif e[3] is not None:
                    ts += self.out(ask, e[3], e[5][1], e[6][0], binds)
            else:
                for b in scopes(cx, ask(e[1], binds), 'kk' if e[4] else None, 'vv'):
                    ts += self.out(ask, e[2], e[3][0][1], e[3][1][0], b)
        return ts


def show(cs):
    return ''.join(repr(c)[1:-1] + ('+' if m else '') for c, m in cs)


def run(rep):
    F = load()
    cx = Ctx(F, rep)
    rep.rule('The text of a template is the sequence of its literal texts and the texts of its interpolated values; a literal loses the '
             'white space up to and including the first line break exactly on the sides where the neighbouring marker says so.')
    b = B(cx)
    fid = cx.fid('Template')
    rep.oblige(all(b.a.values()) and b.strip, 'types', 'the template types were not found (anchor)')
    if not fid or not all(b.a.values()) or not b.strip:
        return
    V = cx.V
    str1 = (V('String', ('sym', 's1')),)
    bools = (V('Bool', cbool(True)), V('Bool', cbool(False)), V('Null'))

    def case(key, what, es, minimum=1, **kw):
        xs, E = cx.run(fid, b.tpl(es), hooks=TplH, **kw)
        cx.compare(key, what, xs, E, lambda ask: ('toks', b.out(ask, es)), minimum)
        rep.count('templates')
    # one literal between two interpolations, at the start, at the end
    for pre in EDGE:
        for post in EDGE:
            for cs in {pre + post, pre + (X,) + post}:
                if pre and post and (len(pre) > 2 and len(post) > 2):
                    continue
                for p in (False, True):
                    for q in (False, True):
                        key = '%d%d' % (p, q)
                        es = [('int', 'e1', (False, p)), ('lit', cs), ('int', 'e2', (q, False))]
                        case('between:' + key, 'the literal "%s" between ${..%s} and ${%s..}' % (show(cs), '~' * p, '~' * q), es,
                             answers={'e1': str1, 'e2': str1})
    lit = (S, LF, S, X, S, LF, S)
    for s in STRIPS:
        for t in STRIPS:
            n = b.names[s] + b.names[t]
            case('mid:' + n, 'a literal between interpolations with markers %s and %s' % (b.names[s], b.names[t]),
                 [('lit', lit), ('int', 'e1', s), ('lit', lit), ('int', 'e2', t), ('lit', lit)], answers={'e1': str1, 'e2': str1})
            case('adjacent:' + n, 'adjacent interpolations with markers %s and %s' % (b.names[s], b.names[t]),
                 [('int', 'e1', s), ('int', 'e2', t), ('lit', lit)], answers={'e1': str1, 'e2': str1})
    case('literal', 'a template of one literal', [('lit', lit)])
    case('empty', 'an empty template', [])
    case('two', 'a template of two literals', [('lit', lit), ('lit', lit)])
    # interpolated values
    case('value', 'an interpolation in a text', [('lit', (X,)), ('int', 'e1', (False, False))], 7)
    # if directives
    for s in STRIPS:
        for t in STRIPS:
            n = b.names[s] + b.names[t]
            for body in ([('lit', lit)], [('int', 'e2', (True, True)), ('lit', lit)], [('lit', lit), ('int', 'e2', (True, True))]):
                case('if:%s:%d' % (n, len(body)), 'an if directive with markers %s and %s' % (b.names[s], b.names[t]),
                     [('lit', lit), ('if', 'e1', body, None, s, (True, True), t), ('lit', lit)], 3, answers={'e1': bools, 'e2': str1})
            for u in STRIPS:
                case('ifelse:%s%s' % (n, b.names[u]), 'an if directive with an else branch with markers %s, %s and %s' % (
                    b.names[s], b.names[u], b.names[t]),
                    [('lit', lit), ('if', 'e1', [('lit', lit)], [('lit', lit + (X, LF))], s, u, t), ('lit', lit)], 3, answers={'e1': bools})
    # for directives
    colls = (V('Array', arr((('sym', 'x0'), ('sym', 'x1')))), V('Object', arr((tup(cstr('a'), ('sym', 'x0')),))), V('Null'), V('Array', arr(())))
    for s in STRIPS:
        for t in STRIPS:
            n = b.names[s] + b.names[t]
            for k in (False, True):
                case('for:%s%d' % (n, k), 'a for directive with markers %s and %s' % (b.names[s], b.names[t]),
                     [('lit', lit), ('for', 'e1', [('lit', lit), ('int', 'e2', (False, False)), ('lit', lit)], (s, t), k), ('lit', lit)], 4,
                     answers={'e1': colls, 'e2': lambda bd: (V('String', ('op', 'body', None, bd)),)})
            case('forlit:%s' % n, 'a for directive over a literal with markers %s and %s' % (b.names[s], b.names[t]),
                 [('for', 'e1', [('lit', lit)], (s, t), False)], 4, answers={'e1': colls})
            # directives inside directives
            case('nested:' + n, 'a directive inside a directive', [('if', 'e1', [('lit', lit), ('for', 'e2', [('lit', lit)], (s, t), False), ('lit', lit)],
                 [('if', 'e3', [('lit', lit)], None, s, (True, True), t), ('lit', lit)], t, s, t)], 3,
                 answers={'e1': bools, 'e2': colls[:1], 'e3': bools[:2]})
    # template expressions: a single interpolation is its value
    unwrap(cx, b, str1)
    rep.floor('templates', 900)


def unwrap(cx, b, str1):
    F, rep = cx.F, cx.rep
    fid = cx.fid('TemplateExpr')
    if not fid:
        return
    e1 = ('int', 'e1', (False, False))
    cases = [('one interpolation', [e1]), ('one interpolation with markers', [('int', 'e1', (True, True))]), ('nothing', []),
             ('a literal', [('lit', (X,))]), ('an interpolation and a literal', [e1, ('lit', (X,))]),
             ('a literal and an interpolation', [('lit', (X,)), e1]), ('two interpolations', [e1, ('int', 'e2', (False, False))]),
             ('a directive', [('if', 'e1', [e1], None, (False, False), (False, False), (False, False))])]
    for vn in ('QuotedString', 'Heredoc'):
        for nm, es in cases:
            arg = ('sym', 'quoted')
            x = variant(F, b.a['TemplateExpr'], vn, arg)
            kw = {'templates': (b.tpl(es),), 'tplarg': x}
            if es and es[0][0] != 'if':
                kw['answers'] = {'e2': str1}
            else:
                kw['answers'] = {'e1': (cx.V('Bool', cbool(True)), cx.V('Bool', cbool(False)))}
            xs, E = cx.run(fid, x, hooks=TplH, **kw)

            def spec(ask):
                ask('parse')
                if len(es) == 1 and es[0][0] == 'int':
                    return ask('e1')
                return cx.V('String', ('toks', b.out(ask, es)))
            cx.compare('unwrap:%s:%s' % (vn, nm), 'a template expression of %s' % nm, xs, E, spec, 1)
            rep.count('template expressions')
    rep.floor('template expressions', 16)
