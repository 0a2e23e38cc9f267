"""P02: printing a parsed tree reproduces the token sequence the parser consumed.

Every grammar production is interpreted over symbolic input: parser combinators consume symbolic
tokens (literal characters, trivia, sub-productions), the semantic actions are interpreted on the
MIR, and the resulting tree is then pushed through the encoder.  The tokens written must be exactly
the tokens consumed, in order.  Sub-productions are opaque tokens here and are entries of their own,
so the argument is an induction over derivations.  Repetitions are unrolled (0, 1 and 2 rounds).
"""
from common import *
from engine import cont, Call, cint, cchar
from models import as_iter

P = 'hcl_edit::parser::'
LIM = 2
FAIL = err(('fail',))
EXPR = ('adt', 'hcl_edit::expr::Expression', ())
# productions which are opaque inside of other productions: name -> (kind, result type or None)
NT_FN = {
    'expr::expr': 'expr', 'expr::multiline_expr': 'expr', 'structure::body': 'body',
    'template::template': 'tpl', 'template::quoted_template': 'tplq', 'template::string_template': 'nt',
    'template::interpolation': 'nt', 'expr::traversal_operator': 'nt', 'expr::binary_operator': 'nt',
    'expr::unary_operator': 'nt', 'string::ident': 'nt', 'string::str_ident': 'nt', 'number::number': 'nt',
    'trivia::ws': 'ws', 'trivia::sp': 'sp', 'trivia::line_comment': 'cm',
    'template::if_directive': 'dir', 'template::for_directive': 'dir',
}
FACTORY = {'expr::expr_with_state': EXPR, 'expr::expr_term_with_state': EXPR}
TERMS = ['stringlike', 'number', 'neg_number', 'unary_op', 'array', 'object', 'parenthesis', 'heredoc', 'identlike']
NOFAIL = ('expr', 'body', 'ws', 'sp', 'tpl', 'tplq')


def wn(name, *args):
    return ('agg', 'wn', name, None, tuple(args))


def py(*xs):
    return ('const', 'py', xs)


def text(toks):
    return ('toks', tuple(toks))


def rng(a, b):
    return ('agg', 'adt', 'core::ops::range::Range', 0, (('tokpos', a), ('tokpos', b)))


class RT(Seqs):
    max_rec = 6
    max_inline = 60
    max_states = 1500000
    klimit = 100000
    keep_cells = True
    maxtok = 34

    def __init__(self, F, entry):
        self.F, self.open = F, entry
        self.ids, self.kinds, self.expand, self.ends, self.tys = {}, {}, {}, [], {}
        self.dead = {}
        self.opq = {}
        self.ended = 0
        self.inner = 'structure::structure' in entry

    def method(self, name):
        for fid in self.F.fns:
            if fid.startswith(P) and self.F.fnname(fid) == name:
                return fid
        raise Limit('function %s not found' % name)

    # ------------------------------------------------------------ tokens
    def toks(self, st):
        return st.mon[1]

    def set(self, st, toks):
        st.mon = ('rt', tuple(toks), st.mon[2])

    def long(self, st):
        return st.mon[1][:1] == (('long',),)

    def emit(self, st, tok):
        if len(self.toks(st)) >= self.maxtok:
            st.mon = ('rt', (('long',),), st.mon[2])
            return
        t = self.toks(st)
        if tok[0] in ('nt', 'ws', 'sp', 'cm'):
            st.facts.pop(self.ch(t), None)      # what is known about its first character is not used any more
        self.set(st, t + (tok,))

    def out(self, st, toks):
        o = list(st.mon[2])
        for t in toks:
            if t[0] == 'lit' and o and o[-1][0] == 'lit':
                o[-1] = ('lit', o[-1][1] + t[1])
            elif t != ('lit', ''):
                o.append(t)
        st.mon = ('rt', st.mon[1], tuple(o))

    def pid(self, toks):
        k = tuple(t for t in toks if t[0] != 'eps')
        return self.ids.setdefault(k, len(self.ids))

    def ch(self, toks):
        return ('sym', 'ch%d' % self.pid(toks))

    def ateof(self, st):
        return any(t[0] == 'eof' for t in self.toks(st))

    def charfact(self, E, st, chars, positive):
        """Next character is (not) one of chars."""
        t = self.toks(st)
        vals = [ord(c) for c in chars]
        if not E.assume(st, self.ch(t), vals, positive):
            return False
        if positive and not any(c in ' \t\r\n#/' for c in chars):
            # trivia at this place is empty
            for k in ('ws', 'sp'):
                if not E.assume(st, self.ch(t + ((k, self.pid(t)),)), vals, True):
                    return False
        return True

    def nt(self, E, st, kind, ty, flag=None):
        i = self.ids.setdefault((self.pid(self.toks(st)), kind, ty), len(self.ids))
        s = E.sym('n%d' % i, ty)
        self.kinds[s[1]] = kind
        self.emit(st, ('nt', i, flag))
        # the same place may be parsed again on another path: no stale knowledge
        return s

    # ------------------------------------------------------------ parsing
    def parse(self, E, st, p, ret):
        """Runs parser p; ret receives ok(value) or FAIL."""
        if self.long(st):
            return []
        st = st.copy()
        p = E.deref(st, p)
        if p[0] == 'const' and p[1] in ('char', 'str'):
            return self.lit(E, st, p[2], ret)
        if p[0] == 'const' and p[1] == 'int':
            return self.lit(E, st, chr(p[2]), ret)
        if p[0] == 'agg' and p[1] == 'tuple':
            return self.seq(E, st, p[4], (), len(self.toks(st)), ret)
        if p[0] == 'fn':
            return self.fnparser(E, st, p, ret)
        if p[0] == 'clos':
            return E.invoke(st, p, [('sym', 'input')], ('k', 'rt_res', len(self.toks(st)), ret), 0)
        if p[0] == 'agg' and p[1] == 'wn':
            return self.comb(E, st, p[2], p[4], ret)
        if p[0] == 'sym' and self.kinds.get(p[1]) == 'nt':
            # the text of something parsed before
            out = E.resume(st.copy(), ret, FAIL)
            self.emit(st, self.valtok(E, st, p))
            return out + E.resume(st, ret, ok(p))
        self.opq['parser %s' % E.show(p)] = 1
        return []

    def lit(self, E, st, s, ret):
        out = []
        a = st.copy()
        if not self.ateof(a) and self.charfact(E, a, s[0], True):
            # later characters of a multi-character literal
            t = self.toks(a)
            self.emit(a, ('lit', s))
            out += E.resume(a, ret, ok(cstr(s) if len(s) > 1 else cchar(s)))
        b = st.copy()
        if len(s) > 1 or self.charfact(E, b, s, False):
            out += E.resume(b, ret, FAIL)
        return out

    def seq(self, E, st, ps, vals, start, ret):
        if not ps:
            return E.resume(st, ret, ok(('agg', 'tuple', None, None, tuple(vals))))
        return self.parse(E, st, ps[0], ('k', 'rt_seq', (tuple(ps[1:]), tuple(vals), start), ret))

    def trivia(self, E, st, kind, ret):
        t = self.toks(st)
        last = [x for x in t if x[0] != 'eps'][-1:]
        if self.ateof(st) or last and (last[0][0] == kind or (last[0][0], kind) == ('ws', 'sp')):
            return E.resume(st, ret, ok(UNIT))
        self.emit(st, (kind, self.pid(t)))
        return E.resume(st, ret, ok(UNIT))

    def fnparser(self, E, st, p, ret):
        fid = p[1]
        n = norm_path(p[3]) if p[3] else fid
        short = n.split('::')[-1]
        if fid.startswith(P):
            k = fid[len(P):]
            if k in NT_FN and k not in self.open:
                return self.ntparse(E, st, NT_FN[k], self.retty(fid), None, ret)
        elif fid.startswith('winnow::'):
            if short in ('multispace0', 'space0'):
                return self.trivia(E, st, 'ws' if short == 'multispace0' else 'sp', ret)
            if short in ('line_ending', 'newline', 'crlf'):
                return self.lineend(E, st, ret)
            if short == 'empty':
                return E.resume(st, ret, ok(UNIT))
            if short == 'fail':
                return E.resume(st, ret, FAIL)
            if short == 'eof':
                out = E.resume(st.copy(), ret, FAIL)
                if not self.ateof(st):
                    self.emit(st, ('eof',))
                return out + E.resume(st, ret, ok(cstr('')))
            if short == 'any':
                return self.anychar(E, st, ret)
            if short in ('dec_uint', 'digit1', 'alphanumeric1'):
                return self.ntparse(E, st, 'nt', ('prim', 'u64'), None, ret)
            if short == 'till_line_ending':
                return self.ntparse(E, st, 'nt', ('prim', 'str'), None, ret)
            self.opq['winnow parser ' + n] = 1
            return []
        return E.invoke(st, p, [('sym', 'input')], ('k', 'rt_res', len(self.toks(st)), ret), 0)

    def retty(self, fid):
        t = self.F.fns[fid]['lty'][0]
        return t[2][0]

    def lineend(self, E, st, ret):
        out = []
        b = st.copy()
        out += E.resume(b, ret, FAIL)
        if not self.ateof(st):
            self.emit(st, ('lit', '\n'))
            out += E.resume(st, ret, ok(cstr('\n')))
        return out

    def anychar(self, E, st, ret, vals=None, positive=True):
        if self.ateof(st):
            return E.resume(st, ret, FAIL)
        s = self.ch(self.toks(st))
        E.symty[s[1]] = ('prim', 'char')
        self.emit(st, ('any', s))
        return E.resume(st, ret, ok(s))

    def ntparse(self, E, st, kind, ty, flag, ret):
        if kind in ('ws', 'sp'):
            return self.trivia(E, st, kind, ret)
        out = []
        if kind not in NOFAIL:
            out += E.resume(st.copy(), ret, FAIL)
        if self.ateof(st) and kind not in ('body', 'tpl', 'tplq'):
            return out
        if kind == 'cm':
            self.emit(st, ('cm', self.pid(self.toks(st))))
            return out + E.resume(st, ret, ok(UNIT))
        if kind in ('tpl', 'tplq'):
            flag = 'quoted' if kind == 'tplq' else 'plain'
        s = self.nt(E, st, kind, ty, flag)
        return out + E.resume(st, ret, ok(s))

    def comb(self, E, st, name, a, ret):
        n = len(self.toks(st))
        K = lambda k, *d: ('k', 'rt_' + k, d, ret)
        if name in ('context', 'by_ref', 'trace', 'ident'):
            return self.parse(E, st, a[0], ret)
        if name == 'cut_err':
            return self.parse(E, st, a[0], K('cut'))
        if name in ('map', 'value', 'void', 'span', 'with_span', 'take', 'with_taken', 'output_into', 'opt', 'peek',
                    'not', 'recognize', 'verify', 'verify_map', 'try_map'):
            return self.parse(E, st, a[0], K(name, n, a[1:]))
        if name == 'preceded':
            return self.seq(E, st, a, (), n, K('pick', (1,)))
        if name == 'terminated':
            return self.seq(E, st, a, (), n, K('pick', (0,)))
        if name == 'delimited':
            return self.seq(E, st, a, (), n, K('pick', (1,)))
        if name == 'separated_pair':
            return self.seq(E, st, a, (), n, K('pick', (0, 2)))
        if name == 'alt':
            ps = E.deref(st, a[0])
            return self.parse(E, st, ps[4][0], K('alt', n, tuple(ps[4][1:])))
        if name == 'repeat':
            return self.rep(E, st, a[0], a[1], None, (), n, ret)
        if name == 'separated':
            return self.rep(E, st, a[0], a[1], a[2], (), n, ret)
        if name == 'one_of' or name == 'none_of':
            return self.oneof(E, st, a[0], name == 'one_of', ret)
        if name == 'take_n':
            k = E.deref(st, a[0])
            if k == cint(1):
                return self.anychar(E, st, ret)
            s = ('sym', 'txt%d' % self.pid(self.toks(st)))
            E.symty[s[1]] = ('prim', 'str')
            b = st.copy()
            self.emit(st, ('take', s))
            return E.resume(st, ret, ok(s)) + E.resume(b, ret, FAIL)
        if name == 'take_until':
            return self.ntparse(E, st, 'nt', ('prim', 'str'), None, ret)
        if name == 'nt':
            kind, ty, flag = a[0][2]
            return self.ntparse(E, st, kind, ty, flag, ret)
        if name == 'stub':
            # a production which leaves its result in the parser state
            (kind, meth), state = a[0][2], a[1]
            if kind == 'structure':
                out = E.resume(st.copy(), ret, FAIL)
                if self.ateof(st):
                    return out
                s = self.nt(E, st, 'nt', ('adt', 'hcl_edit::structure::Structure', ()), None)
            else:
                out = []
                if self.ateof(st):
                    return out
                s = self.nt(E, st, 'expr', EXPR, None)
            f = self.F.fns[meth]
            c = ('fn', meth, ((EXPR,) if f.get('generics') else ()), meth, None)
            return out + E.invoke(st, c, [state, s], K('unit'), 0)
        self.opq['combinator ' + name] = 1
        return []

    def oneof(self, E, st, pat, pos, ret):
        pat = E.deref(st, pat)
        chars = None
        if pat[0] == 'const' and pat[1] in ('bytes', 'mem'):
            chars = ''.join(chr(b) for b in (bytes.fromhex(pat[2]) if isinstance(pat[2], str) else pat[2]))
        elif pat[0] == 'const' and pat[1] in ('str', 'char'):
            chars = pat[2]
        elif pat[0] == 'agg' and all(x[0] == 'const' for x in pat[4]):
            chars = ''.join(x[2] if isinstance(x[2], str) else chr(x[2]) for x in pat[4])
        out = []
        a, b = st, st.copy()
        if chars is None:
            self.dead['oneof'] = E.show(pat)
            out += E.resume(b, ret, FAIL)
            out += self.anychar(E, a, ret)
            return out
        if self.charfact(E, b, chars, not pos):
            out += E.resume(b, ret, FAIL)
        if not self.ateof(a) and self.charfact(E, a, chars, pos):
            out += self.anychar(E, a, ret)
        return out

    def limit(self, E, st):
        """Rounds of the current repetition."""
        if self.inner and E.where(st).startswith(P + 'structure::body '):
            return 1
        return LIM

    def rep(self, E, st, r, p, sep, items, pos, ret):
        r = E.deref(st, r)
        lo = r[4][0][2] if r[0] == 'agg' and r[4] and r[4][0][0] == 'const' else 0
        if sep is not None and items:
            return self.seq(E, st, (sep, p), (), pos, ('k', 'rt_rep', (r, lo, p, sep, items, pos), ret))
        return self.parse(E, st, p, ('k', 'rt_rep', (r, lo, p, sep, items, pos), ret))

    # ------------------------------------------------------------ calls
    def on_call(self, E, st, c):
        np, id = c.np, c.id
        a = c.args
        if self.long(st):
            return []
        R = lambda v, s=None: E.resume(s or st, c.ret, v)
        if c.trait == 'winnow::parser::Parser':
            m = np.split('::')[-1]
            if m == 'parse_next':
                return self.parse(E, st, a[0], ('k', 'rt_user', None, c.ret))
            if m == 'output_into':
                return R(wn(m, E.deref(st, a[0]), ('ty', c.targs[-1], c.targs[-3])))
            return R(wn(m, *[E.deref(st, x) if x[0] == 'slot' and i == 0 else x for i, x in enumerate(a)]))
        if np.startswith('winnow::combinator::') or np.startswith('winnow::token::') or np.startswith('winnow::ascii::'):
            n = np.split('::')[-1]
            if a and E.deref(st, a[-1]) == ('sym', 'input'):
                return self.fnparser(E, st, ('fn', c.id, c.targs, c.path, None), ('k', 'rt_user', None, c.ret))
            if n == 'trace':
                return R(a[1])
            if n == 'take':
                n = 'take_n'
            return R(wn(n, *a))
        if c.trait == 'winnow::stream::Location':
            return R(('tokpos', len(self.toks(st))))
        if c.trait == 'winnow::stream::Stream':
            if np.endswith('checkpoint'):
                return R(('ckpt', len(self.toks(st))))
            if np.endswith('reset'):
                k = E.deref(st, a[1])
                self.set(st, self.toks(st)[:k[1]])
                return R(UNIT)
        if id.startswith(P):
            k = id[len(P):]
            if k in FACTORY:
                return R(wn('nt', py('expr', FACTORY[k], None)))
            if k == 'template::directive':
                return R(wn('nt', py('dir', ('adt', 'hcl_edit::template::Directive', ()), self.tplflag(E, st, a[-1]))))
            if k == 'template::heredoc_template' and k not in self.open:
                return R(wn('nt', py('tpl', ('adt', 'hcl_edit::template::Template', ()), 'plain')))
            if k == 'string::build_string':
                f = E.deref(st, a[0])
                q = 'quoted' if f[0] == 'fn' and f[1].endswith('quoted_string_fragment') else 'plain'
                return R(wn('nt', py('lit', ('prim', 'str'), q)))
            if k.startswith('expr::') and k[6:] in TERMS and k not in self.open:
                return R(wn('stub', py('expr', self.method('ExprParseState::on_expr_term')), a[0]))
            if k == 'expr::expr_term_inner' and k not in self.open:
                return R(wn('stub', py('expr', self.method('ExprParseState::on_expr_term')), a[0]))
            if k == 'structure::structure' and (k not in self.open or self.toks(st)):
                return R(wn('stub', py('structure', self.method('BodyParseState::on_structure')), a[0]))
            if k in NT_FN and k not in self.open and a and E.deref(st, a[0]) == ('sym', 'input'):
                fl = self.tplflag(E, st, a[1]) if len(a) > 1 else None
                return self.ntparse(E, st, NT_FN[k], self.retty(id), fl, ('k', 'rt_user', None, c.ret))
            if k.startswith('state::') and k.endswith('::is_redefined'):
                return R(('op', 'redefined', c.site))
            if k == 'pratt::parse_binary_op':
                v = E.full(st, a[0])
                i = self.ids.setdefault(('pratt', v), len(self.ids))
                s = E.sym('p%d' % i, EXPR)
                self.kinds[s[1]] = 'pratt'
                self.expand[s[1]] = v
                return R(s)
        if np.endswith('RawString::from_span'):
            x = E.full(st, a[0])
            if x[0] != 'agg' or len(x[4]) < 2:
                raise Limit('span %s in %s %s' % (x, E.where(st), E.full(st, st.env.get(('st',0)))))
            return R(('agg', 'raw', None, None, (x[4][0], x[4][1])))
        if np.endswith('RawString::span'):
            x = E.full(st, a[0])
            if x[0] == 'agg' and x[1] == 'raw':
                i, j = x[4][0][1], x[4][1][1]
                out = []
                t = self.toks(st)
                if all(y[0] in ('ws', 'sp', 'eps') for y in t[i:j]):
                    s = st.copy()
                    self.set(s, t[:i] + (('eps',),) * (j - i) + t[j:])
                    out += R(NONE, s)
                if i < j:
                    out += R(some(rng(i, j)))
                return out
        if np.endswith('RawString::encode_with_default'):
            x = E.full(st, a[0])
            ts = self.rawtoks(E, st, x)
            if ts is not None:
                return self.write(E, st, a[1], ts, c.ret)
        if c.trait in ('core::convert::From', 'core::convert::Into') and len(c.targs) >= 2:
            dst = c.targs[0] if c.trait.endswith('From') else c.targs[1]
            x = E.full(st, a[0])
            if dst[0] == 'adt' and dst[1].endswith('raw_string::RawString') and x[0] == 'toks':
                return R(('agg', 'raw', None, None, x[1]))
        if c.trait in ('hcl_edit::repr::Decorate', 'hcl_edit::repr::SetSpan', 'hcl_edit::repr::Span'):
            x = E.deref(st, a[0])
            if x[0] == 'sym' and x[1] in self.kinds:
                m = np.split('::')[-1]
                k = ('decor', x[1])
                if k not in st.env:
                    st.env[k] = self.nodecor(E)
                if m == 'decor_mut':
                    return R(('slot',) + k + ((),))
                if m == 'decor':
                    return R(st.env[k])
                if m == 'set_span':
                    return R(UNIT)
                if m == 'span':
                    return R(some(('sym', 'span')))
        if c.trait in ('hcl_edit::encode::Encode', 'hcl_edit::encode::EncodeDecorated'):
            x = E.deref(st, a[0])
            if x[0] == 'sym' and x[1] in self.kinds:
                return self.encode_nt(E, st, x, a, c.trait.endswith('Decorated'), c.ret)
        if np.endswith('::escape_markers'):
            return R(('op', 'esc', None, E.full(st, a[0])))
        if np.endswith('encode::encode_escaped'):
            x = E.full(st, a[1])
            return self.write(E, st, a[0], self.texttoks(E, st, x, True), c.ret)
        if np in ('fmt::Write::write_str', 'fmt::Write::write_char', 'fmt::Formatter::write_str',
                  'fmt::Formatter::write_char'):
            x = E.full(st, a[1])
            return self.write(E, st, a[0], self.texttoks(E, st, x, False), c.ret)
        if np in ('fmt::Write::write_fmt', 'fmt::Formatter::write_fmt'):
            return self.write_fmt(E, st, a, c.ret)
        if np == 'fmt::Arguments::new':
            return R(fmt_args(E, st, a))
        if np.startswith('fmt::rt::Argument::new_'):
            return R(('fmtarg', np[len('fmt::rt::Argument::new_'):], E.full(st, a[0])))
        if np.endswith('util::indent_by'):
            return R(E.full(st, a[0]))
        if np.endswith('HeredocTemplate::dedent') and a[0][0] == 'slot':
            ad = self.F.adts['hcl_edit::template::HeredocTemplate']
            i = [k for k, f in enumerate(ad['variants'][0]['fields']) if f['name'] == 'indent'][0]
            E.store(st, ('slot', a[0][1], a[0][2], a[0][3] + ((None, i),)), some(('sym', 'indent')))
            return R(UNIT)
        if np.endswith('ident::is_id_start') or np.endswith('ident::is_id_continue'):
            return R(('op', 'idchar', None, E.full(st, a[0])))
        if np in ('str::impl::starts_with', 'cmp::PartialEq::eq', 'cmp::PartialEq::ne') and len(a) == 2:
            x, y = E.full(st, a[0]), E.full(st, a[1])
            if x[0] == 'sym' and x[1].startswith('txt'):
                return self.peeked(E, st, x, y, np, c.ret)
        return self.seqs(E, st, c, R)

    def peeked(self, E, st, x, y, np, ret):
        """Tests of the next characters."""
        ch = ('sym', 'ch' + x[1][3:])
        if y[0] == 'const' and y[1] in ('str', 'char'):
            cs = [y[2]]
        elif y[0] == 'agg' and all(z[0] == 'const' for z in y[4]):
            cs = [z[2] for z in y[4]]
        else:
            return None
        exact = all(len(c) == 1 for c in cs) and np.endswith('starts_with')
        out = []
        s = st.copy()
        vals = [ord(c[0]) for c in cs]
        flip = np.endswith('::ne')
        if E.assume(s, ch, vals, True):
            out += E.resume(s, ret, cbool(not flip))
        s = st.copy()
        if not exact or E.assume(s, ch, vals, False):
            out += E.resume(s, ret, cbool(flip))
        return out

    def tplflag(self, E, st, v):
        v = E.deref(st, v)
        if v[0] == 'fn':
            return 'quoted' if v[1].endswith('::quoted_template') else 'plain'
        return ('flag', v)

    def nodecor(self, E):
        return ('agg', 'adt', 'hcl_edit::repr::Decor', 0, (NONE, NONE))

    # ------------------------------------------------------------ writing
    def rawtoks(self, E, st, x):
        if x[0] == 'agg' and x[1] == 'raw':
            if x[4] and x[4][0][0] == 'tokpos':
                return self.toks(st)[x[4][0][1]:x[4][1][1]]
            return x[4]
        if x[0] == 'agg' and x[2] and x[2].endswith('RawString'):
            y = x[4][0]
            if y[0] == 'agg' and y[2] and y[2].endswith('RawStringInner') and \
                    self.F.vname(y[2], y[3]) == 'Empty':
                return ()
        return None

    def texttoks(self, E, st, x, escaped):
        """Tokens written for the text x."""
        if x[0] == 'op' and x[1] == 'esc':
            out = []
            for p in self.parts(x[3]):
                if p[0] == 'lit':
                    out.append(p)
                elif p[1][0] == 'sym' and self.kinds.get(p[1][1]) == 'lit':
                    out.append(('nt', int(p[1][1][1:]), 'quoted' if escaped else 'plain'))
                else:
                    out.append(('text', p[1]))
            return tuple(out)
        out = []
        for p in self.parts(x):
            if p[0] == 'val':
                out.append(self.valtok(E, st, p[1], escaped))
            else:
                out.append(p)
        return tuple(out)

    def valtok(self, E, st, x, escaped=False):
        y = x
        if y[0] == 'sym' and y[1] in self.kinds and self.kinds[y[1]] != 'lit':
            return ('nt', int(y[1][1:]), None)
        # the text of the identifier inside of an expression which is just that identifier
        path = []
        while y[0] == 'fld':
            path.append(y)
            y = y[1]
        if y[0] == 'sym' and y[1] in self.kinds and path:
            k = path[-1]
            t = E.typeof(y)
            if t == EXPR and self.F.vname(t[1], k[2] or 0) == 'Variable':
                return ('nt', int(y[1][1:]), None)
            if t and t[0] == 'adt' and t[1].endswith(('Ident', 'Decorated')):
                return ('nt', int(y[1][1:]), None)
        return ('text', x)

    def write(self, E, st, dst, toks, ret):
        d = E.deref(st, dst)
        n = 0
        slot = dst if dst[0] == 'slot' else None
        while d[0] == 'agg' and d[1] == 'adt' and d[2].endswith('EncodeState') and n < 4:
            x = d[4][0]
            slot = x if x[0] == 'slot' else None
            d = E.deref(st, x)
            n += 1
        if d == ('sym', 'out'):
            self.out(st, toks)
            return E.resume(st, ret, ok(UNIT))
        if slot is not None:
            E.store(st, slot, text(self.parts(d) + tuple(toks)))
            return E.resume(st, ret, ok(UNIT))
        self.opq['write to %s' % E.show(d)] = 1
        return []

    def write_fmt(self, E, st, a, ret):
        fa = E.full(st, a[1])
        pieces = fmt_pieces(fa)
        if pieces is None:
            self.opq['format arguments %s' % E.show(fa)] = 1
            return []
        return self.wpieces(E, st, a[0], pieces, ret)

    def wpieces(self, E, st, dst, pieces, ret):
        if not pieces:
            return E.resume(st, ret, ok(UNIT))
        p, rest = pieces[0], tuple(pieces[1:])
        K = ('k', 'rt_pieces', (dst, rest), ret)
        if p[0] == 'lit':
            return self.write(E, st, dst, (p,), K)
        x = E.full(st, p[1])
        if x[0] == 'const':
            s = str(x[2])
            if x[1] == 'bool':
                s = s.lower()
            return self.write(E, st, dst, (('lit', s),), K)
        if x[0] == 'agg' and x[1] == 'adt':
            im = self.F.find_impl('core::fmt::Display', ('adt', x[2], ()), (('adt', x[2], ()),))
            if im:
                c = Call()
                c.id, c.path, c.np = 'core::fmt::Display::fmt', 'std::fmt::Display::fmt', 'fmt::Display::fmt'
                c.targs, c.trait, c.res = (('adt', x[2], ()),), 'core::fmt::Display', None
                c.args, c.ret, c.line, c.fid, c.argtys, c.site = [x, dst], K, 0, None, (None, None), ('fmt',)
                return E.call(st, c)
        return self.write(E, st, dst, self.texttoks(E, st, x, False), K)

    def escflag(self, E, st, buf):
        d = E.deref(st, buf)
        if d[0] == 'agg' and len(d[4]) > 1:
            return {cbool(True): 'quoted', cbool(False): 'plain'}.get(E.deref(st, d[4][1]), d[4][1])
        return None

    def encode_nt(self, E, st, x, a, decorated, ret):
        k = self.kinds[x[1]]
        d = st.env.get(('decor', x[1])) or self.nodecor(E)
        pre, suf = E.full(st, d)[4]
        de = E.full(st, a[2]) if decorated and len(a) > 2 else None
        if k == 'pratt':
            nxt = ('k', 'rt_pratt', (self.expand[x[1]][4], a[1], self.decor_toks(E, st, suf, de, 1) if decorated else ()), ret)
            return self.write(E, st, a[1], self.decor_toks(E, st, pre, de, 0) if decorated else (), nxt)
        fl = None
        if k in ('tpl', 'tplq', 'dir'):
            fl = self.escflag(E, st, a[1])
            if k == 'dir':
                # recorded with the flag of the nested template parser
                pass
        ts = (('nt', int(x[1][1:]), fl),)
        if decorated:
            ts = self.decor_toks(E, st, pre, de, 0) + ts + self.decor_toks(E, st, suf, de, 1)
        return self.write(E, st, a[1], ts, ret)

    def decor_toks(self, E, st, d, de, i):
        if d == NONE:
            if de and de[0] == 'agg':
                v = E.deref(st, de[4][i])
                return (('lit', v[2]),) if v[0] == 'const' else (('text', v),)
            return (('text', ('default decor',)),)
        ts = self.rawtoks(E, st, d[4][0])
        return tuple(ts) if ts is not None else (('text', d),)

    def on_exit(self, E, st, value):
        self.ended += 1


# ---------------------------------------------------------------- continuations
def H(E):
    return E.H


@cont('rt_user')
def k_user(E, st, d, ret, v):
    return E.resume(st, ret, v if v[3] == 0 else FAIL)


@cont('rt_res')
def k_res(E, st, n, ret, v):
    """Result of a parser written as a function."""
    v = E.deref(st, v)
    if v[0] == 'agg' and v[2] == RES:
        if v[3] == 0:
            return E.resume(st, ret, v)
        H(E).set(st, H(E).toks(st)[:n])
        return E.resume(st, ret, FAIL)
    H(E).opq['parser result %s' % E.show(v)] = 1
    return []


@cont('rt_seq')
def k_seq(E, st, d, ret, v):
    ps, vals, start = d
    if v[3] == 1:
        H(E).set(st, H(E).toks(st)[:start])
        return E.resume(st, ret, FAIL)
    return H(E).seq(E, st, ps, vals + (v[4][0],), start, ret)


@cont('rt_pick')
def k_pick(E, st, d, ret, v):
    if v[3] == 1:
        return E.resume(st, ret, FAIL)
    xs = v[4][0][4]
    r = xs[d[0][0]] if len(d[0]) == 1 else tup(*[xs[i] for i in d[0]])
    return E.resume(st, ret, ok(r))


@cont('rt_cut')
def k_cut(E, st, d, ret, v):
    return [] if v[3] == 1 else E.resume(st, ret, v)


@cont('rt_unit')
def k_unit(E, st, d, ret, v):
    return E.resume(st, ret, ok(UNIT))


@cont('rt_alt')
def k_alt(E, st, d, ret, v):
    n, rest = d
    if v[3] == 0 or not rest:
        return E.resume(st, ret, v)
    H(E).set(st, H(E).toks(st)[:n])
    return H(E).parse(E, st, rest[0], ('k', 'rt_alt', (n, rest[1:]), ret))


@cont('rt_rep')
def k_rep(E, st, d, ret, v):
    r, lo, p, sep, items, pos = d
    h = H(E)
    if v[3] == 1:
        h.set(st, h.toks(st)[:pos])
        if len(items) < lo:
            return E.resume(st, ret, FAIL)
        return E.resume(st, ret, ok(('agg', 'array', None, None, items)))
    if len(items) >= h.limit(E, st):
        return []       # longer repetitions are not unrolled
    x = v[4][0]
    if sep is not None and items:
        x = x[4][1]
    return h.rep(E, st, r, p, sep, items + (E.full(st, x),), len(h.toks(st)), ret)


def _wrap(name):
    def deco(f):
        @cont('rt_' + name)
        def k(E, st, d, ret, v):
            n, a = d
            if v[3] == 1 and name not in ('opt', 'not', 'peek'):
                H(E).set(st, H(E).toks(st)[:n])
                return E.resume(st, ret, FAIL)
            return f(E, st, n, a, ret, v)
        return k
    return deco


@_wrap('map')
def k_map(E, st, n, a, ret, v):
    return E.invoke(st, a[0], [v[4][0]], ('k', 'wrap_ok', None, ret), 0)


@_wrap('value')
def k_value(E, st, n, a, ret, v):
    return E.resume(st, ret, ok(a[0]))


@_wrap('void')
def k_void(E, st, n, a, ret, v):
    return E.resume(st, ret, ok(UNIT))


@_wrap('span')
def k_span(E, st, n, a, ret, v):
    return E.resume(st, ret, ok(rng(n, len(H(E).toks(st)))))


@_wrap('with_span')
def k_with_span(E, st, n, a, ret, v):
    return E.resume(st, ret, ok(tup(v[4][0], rng(n, len(H(E).toks(st))))))


@_wrap('take')
def k_take(E, st, n, a, ret, v):
    return E.resume(st, ret, ok(text(H(E).toks(st)[n:])))


@_wrap('with_taken')
def k_with_taken(E, st, n, a, ret, v):
    return E.resume(st, ret, ok(tup(v[4][0], text(H(E).toks(st)[n:]))))


@_wrap('output_into')
def k_into(E, st, n, a, ret, v):
    x = v[4][0]
    dst = a[0][1]
    src = a[0][2]
    if src is None or dst[0] != 'adt' or dst[1].endswith('::String') or src == dst:
        return E.resume(st, ret, v)
    c = Call()
    c.id, c.path, c.np = 'core::convert::From::from', 'std::convert::From::from', 'convert::From::from'
    c.targs, c.trait, c.res = (dst, src), 'core::convert::From', None
    c.args, c.ret, c.line, c.fid, c.argtys, c.site = [x], ('k', 'wrap_ok', None, ret), 0, None, (src,), ('into',)
    return E.call(st, c)


@_wrap('opt')
def k_opt(E, st, n, a, ret, v):
    if v[3] == 0:
        return E.resume(st, ret, ok(some(v[4][0])))
    H(E).set(st, H(E).toks(st)[:n])
    return E.resume(st, ret, ok(NONE))


@_wrap('peek')
def k_peek(E, st, n, a, ret, v):
    H(E).set(st, H(E).toks(st)[:n])
    return E.resume(st, ret, v)


@_wrap('not')
def k_not(E, st, n, a, ret, v):
    H(E).set(st, H(E).toks(st)[:n])
    return E.resume(st, ret, ok(UNIT) if v[3] == 1 else FAIL)


@cont('rt_pieces')
def k_pieces(E, st, d, ret, v):
    return H(E).wpieces(E, st, d[0], d[1], ret)


@cont('rt_pratt')
def k_pratt(E, st, d, ret, v):
    items, buf, suf = d
    h = H(E)
    if not items:
        return h.write(E, st, buf, suf, ret)
    it = items[0]
    K = ('k', 'rt_pratt', (items[1:], buf, suf), ret)
    x = it[4][0]
    isop = h.F.vname(it[2], it[3]) == 'Operator'
    ty = h.F.adts[it[2]]['variants'][it[3]]['fields'][0]['ty']
    return call_encode(E, st, x, buf, (' ', ' ') if isop else ('', ''), K, ty)


def call_encode(E, st, x, buf, decor, ret, ty=None):
    c = Call()
    tr = 'hcl_edit::encode::EncodeDecorated'
    if ty is None:
        ty = E.typeof(x) if x[0] != 'agg' else ('adt', x[2], ())
    c.id, c.path, c.np = tr + '::encode_decorated', tr + '::encode_decorated', tr + '::encode_decorated'
    args = [x, buf, tup(cstr(decor[0]), cstr(decor[1]))]
    if decor == 'plain':
        tr = 'hcl_edit::encode::Encode'
        c.id = c.path = c.np = tr + '::encode'
        args = [x, buf]
    c.targs, c.trait, c.res = (ty,), tr, None
    c.args, c.ret, c.line, c.fid, c.argtys, c.site = args, ret, 0, None, (None,) * len(args), ('enc',)
    return E.call(st, c)


# ---------------------------------------------------------------- driver
HX = 'hcl_edit::'
NOD = ('', '')
PREFIX = ('', '', 'prefix')      # callers set the prefix only


def mkstate(F, adt, vals):
    a = F.adts[adt]
    fs = []
    for f in a['variants'][0]['fields']:
        fs.append(vals[f['name']] if f['name'] in vals else TOP)
    return ('agg', 'adt', adt, 0, tuple(fs))


@cont('rt_final')
def k_final(E, st, d, ret, v):
    H(E).done(E, st, v)
    return []


@cont('rt_start')
def k_start(E, st, d, ret, v):
    """The entry parser returned."""
    h = H(E)
    if v[0] == 'agg' and v[2] == RES and v[3] == 1:
        h.failed += 1
        return []
    if h.long(st):
        return []
    return h.encode_root(E, st, v)


def norm(h, st, toks):
    out = []
    known = {}
    for k, f in st.facts.items():
        # texts compared with a literal
        if k[0] == 'op' and k[1] == 'Eq' and f == ('in', frozenset([1])):
            for x, y in ((k[2], k[3]), (k[3], k[2])):
                if x[0] == 'sym' and x[1] in h.kinds and y[0] == 'const' and y[1] == 'str':
                    known[int(x[1][1:])] = y[2]
    for t in toks:
        if t[0] == 'nt' and t[1] in known:
            t = ('lit', known[t[1]])
        if t[0] in ('eps', 'eof'):
            continue
        if t[0] == 'any':
            f = st.facts.get(t[1])
            if f and f[0] == 'in' and len(f[1]) == 1:
                t = ('lit', chr(next(iter(f[1]))))
        if t[0] == 'take' and len(t) > 1:
            t = ('take', t[1])
        if t[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + t[1])
        elif t != ('lit', ''):
            out.append(t)
    return out


EXPR_STATE, BODY_STATE = P + 'state::ExprParseState', P + 'state::BodyParseState'


class Run:
    """One entry: parse, then print what was parsed."""

    def __init__(self, F, name, opened, mk, get, enc, flag):
        self.h = h = RT(F, frozenset(opened))
        self.E = E = Engine(F, h)
        h.E = E
        self.F, self.name = F, name
        self.get, self.enc, self.flag = get, enc, flag
        self.good = 0
        self.problems, self.decorated = {}, {}
        h.failed = 0
        h.maxtok = MAXTOK.get(name, h.maxtok)
        h.encode_root, h.done = self.encode_root, self.done
        st = State()
        st.mon = ('rt', (), ())
        E.entry = P + name
        for s in mk(E, st, ('k', 'rt_start', None, ('exit',))):
            E.push(s)
        while E.work:
            s = E.work.pop()
            E.nstates += 1
            if E.nstates > h.max_states:
                raise Limit('state limit in ' + name)
            for n in E.step(s):
                E.push(n)

    def encode_root(self, E, st, v):
        x = self.get(E, st, v)
        if x is None:
            self.h.opq['the parser left no value'] = 1
            return []
        st.env[('buf', 0)] = mkstate(self.F, HX + 'encode::EncodeState', {'buf': ('sym', 'out'), 'escape': self.flag})
        buf, K = ('slot', 'buf', 0, ()), ('k', 'rt_final', None, ('exit',))
        if callable(self.enc):
            return self.enc(E, st, x, buf, K)
        if self.enc != 'plain':
            self.undecorated(E, st, x)
        return call_encode(E, st, x, buf, self.enc, K)

    def undecorated(self, E, st, x):
        """The caller decorates the value, which replaces its prefix and suffix."""
        while x[0] == 'agg' and x[1] == 'adt':
            a = self.F.adts.get(x[2])
            if not a:
                return
            fs = a['variants'][x[3]]['fields']
            for f, v in zip(fs, x[4]):
                if f['name'] == 'decor':
                    v = E.full(st, v)
                    if v[0] == 'agg' and any(d != NONE for d in v[4][:1 if self.enc == PREFIX else 2]):
                        self.decorated.setdefault(x[2], E.trace(st))
                    return
            if len(fs) != 1:
                return
            x = E.full(st, x[4][0])

    def done(self, E, st, v):
        if v[0] == 'agg' and v[2] == RES and v[3] == 1:
            return          # writing failed
        a, b = norm(self.h, st, self.h.toks(st)), norm(self.h, st, st.mon[2])
        if a == b:
            self.good += 1
        else:
            self.problems.setdefault((tuple(a), tuple(b)), E.trace(st))


def fnval(F, k):
    fid = P + k
    if fid not in F.fns:
        raise Limit('production %s not found' % k)
    return ('fn', fid, (), fid, None)


def value(E, st, v):
    return E.full(st, v[4][0])


def plain(k):
    def mk(F):
        f = fnval(F, k)
        return lambda E, st, ret: E.H.fnparser(E, st, f, ret)
    return mk, value


def stateful(k, adt):
    """Productions which leave their result in the parser state."""
    def mk(F):
        f = fnval(F, k)

        def go(E, st, ret):
            st.env[('st', 0)] = mkstate(F, adt, {'current': NONE, 'ws': NONE, 'allow_newlines': ('sym', 'nl'),
                                                 'structures': ('agg', 'array', None, None, ()), 'eof': cbool(False)})
            return E.invoke(st, f, [('slot', 'st', 0, ())], ('k', 'rt_parse', None, ret), 0)
        return go

    def get(E, st, v):
        s = E.full(st, st.env[('st', 0)])
        for f, x in zip(E.F.adts[adt]['variants'][0]['fields'], s[4]):
            if f['name'] == 'current':
                x = E.deref(st, x)
                return E.full(st, x[4][0]) if x[0] == 'agg' and x[3] == 1 else None
    return mk, get


@cont('rt_parse')
def k_parse(E, st, d, ret, v):
    return H(E).parse(E, st, v, ret)


def nested(k, tpl):
    """Directives get the parser of the nested templates."""
    def mk(F):
        f, t = fnval(F, k), fnval(F, tpl)
        return lambda E, st, ret: E.invoke(st, f, [('sym', 'input'), t], ('k', 'rt_res', 0, ret), 0)
    return mk, value


def opname(E, st, x, buf, K):
    """Unary operators are written with their name."""
    fid = [f for f in E.F.fns if f.startswith('hcl_primitives::') and E.F.fnname(f) == 'UnaryOperator::as_str'][0]
    return E.invoke(st, ('fn', fid, (), fid, None), [x], ('k', 'rt_opname', buf, K), 0)


@cont('rt_opname')
def k_opname(E, st, buf, ret, v):
    return H(E).write(E, st, buf, H(E).texttoks(E, st, E.full(st, v), False), ret)


ANY = ('sym', 'esc')
YES, NO = cbool(True), cbool(False)
# production -> (how it is run, productions expanded in it, how its result is written, escape state of the writer)
ENTRIES = [
    ('structure::body', plain('structure::body'), (), PREFIX, NO),
    ('structure::structure', stateful('structure::structure', BODY_STATE), ('structure::body',), PREFIX, NO),
    ('expr::expr_inner', stateful('expr::expr_inner', EXPR_STATE), (), NOD, ANY),
    ('expr::expr_term_inner', stateful('expr::expr_term_inner', EXPR_STATE), (), NOD, ANY),
] + [('expr::' + t, stateful('expr::' + t, EXPR_STATE), ('expr::unary_operator',), NOD, ANY) for t in TERMS] + [
    ('expr::traversal_operator', plain('expr::traversal_operator'), (), 'plain', ANY),
    ('expr::binary_operator', plain('expr::binary_operator'), (), 'plain', ANY),
    ('expr::unary_operator', plain('expr::unary_operator'), (), opname, ANY),
    ('template::string_template', plain('template::string_template'), ('template::quoted_template',), NOD, ANY),
    ('template::quoted_template', plain('template::quoted_template'), (), 'plain', YES),
    ('template::template', plain('template::template'), (), 'plain', NO),
    ('template::interpolation', plain('template::interpolation'), (), 'plain', ANY),
    ('template::if_directive/quoted', nested('template::if_directive', 'template::quoted_template'), (), 'plain', YES),
    ('template::if_directive', nested('template::if_directive', 'template::template'), (), 'plain', NO),
    ('template::for_directive/quoted', nested('template::for_directive', 'template::quoted_template'), (), 'plain', YES),
    ('template::for_directive', nested('template::for_directive', 'template::template'), (), 'plain', NO),
]


MAXTOK = {'expr::expr_inner': 14, 'expr::object': 22}


def run_entry(F, e):
    name, (mk, get), opened, enc, flag = e
    k = name.split('/')[0]
    return Run(F, name, (k,) + opened, mk(F), get, enc, flag)


# ---------------------------------------------------------------- check
def unknown(t):
    """The term depends on something which is not modelled."""
    if not isinstance(t, tuple):
        return False
    if t[:1] in (('top',), ('undef',)) or t[:1] == ('op',) and t[1] not in ('esc', 'idchar', 'redefined'):
        return True
    return any(unknown(x) for x in t)


def show(toks, names):
    out = []
    for t in toks:
        if t[0] == 'lit':
            out.append(t[1].replace('\n', '\\n'))
        elif t[0] in ('ws', 'sp'):
            out.append('_%s' % names.setdefault(t, '%d' % (len(names) + 1)))
        elif t[0] == 'nt':
            out.append('<%s%s>' % (names.setdefault(t[:2], '%d' % (len(names) + 1)), ':' + str(t[2]) if t[2] else ''))
        else:
            out.append('{%s}' % (t[0] if t[0] != 'text' else 'text %s' % (t[1],))[:60])
    return ' '.join(out)


def shape(toks):
    return ' '.join(t[1].replace('\n', '\\n') if t[0] == 'lit' else t[0] for t in toks)


def work(name):
    import sys
    sys.setrecursionlimit(20000)
    F = load()
    e = [x for x in ENTRIES if x[0] == name][0]
    r = dict(name=name, good=0, states=0, failed=0, bad=[], decorated=[], undecided=[])
    try:
        x = run_entry(F, e)
    except Limit as ex:
        r['undecided'].append('%s: %s' % (name, str(ex)[:200]))
        return r
    r.update(good=x.good, states=x.E.nstates, failed=x.h.failed)
    r['undecided'] += ['%s: %s' % (name, k[:200]) for k in x.h.opq]
    seen = set()
    for (a, b), t in x.problems.items():
        if any(unknown(y) for y in b) or any(unknown(y) for y in a):
            r['undecided'].append('%s: prints text of unknown origin' % name)
            continue
        names = {}
        k = shape(a) + ' => ' + shape(b)
        if k not in seen and len(seen) < 12:
            seen.add(k)
            r['bad'].append((k, show(a, names), show(b, names), list(t)[-12:]))
    r['decorated'] = [(k, list(t)[-12:]) for k, t in x.decorated.items()]
    return r


def run(rep):
    import multiprocessing as mp
    global LIM
    load()
    rep.rule('For every production, on every path of the parser (repetitions unrolled %d times) the tokens written for '
             'the parsed value are the tokens consumed, in order.' % LIM)
    rep.rule('The value of a production whose caller decorates it has no prefix or suffix of its own.')
    und = []
    with mp.get_context('fork').Pool(7) as pool:
        for r in pool.imap(work, [e[0] for e in ENTRIES], chunksize=1):
            n = r['name']
            rep.count('parser paths printed back', r['good'])
            rep.count('program points x states', r['states'])
            und += r['undecided']
            if r['good'] or r['bad']:
                rep.count('productions')
            if not r['undecided']:
                rep.oblige(r['good'] > 0, n + ':none', '%s: no path of the production was printed' % n)
            rep.oblige(not r['bad'], n + ':tokens', '%s: what is printed differs from what was parsed' % n) \
                if not r['bad'] else None
            for k, a, b, t in r['bad']:
                rep.oblige(False, n + ':' + k, '%s: parsed %s but prints %s' % (n, a, b), t)
            for k, t in r['decorated']:
                rep.oblige(False, n + ':decor:' + k, '%s: %s is returned with a prefix or suffix which the enclosing '
                           'production replaces' % (n, k), t)
            if not r['decorated']:
                rep.oblige(True, n + ':decor', '')
    for u in sorted(set(und))[:30]:
        rep.count('undecided')
        print('note: not analysed: ' + u)
    rep.floor('productions', 20)
    rep.floor('parser paths printed back', 500)
