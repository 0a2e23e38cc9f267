"""P23: template markers in text are escaped and restored exactly."""
import itertools
from p_de import *
from p_ident import name


class MarkerH(DeH):
    def ucall(self, E, st, c):
        n = c.np.split('::')[-1]
        if n == 'as_str' and len(c.args) == 1:
            x = E.deref(st, c.args[0])
            if x[:2] == ('it', 'list') and all(y[:2] == ('const', 'char') for y in x[2]):
                return E.resume(st, c.ret, cstr(''.join(self.ch(y) for y in x[2][x[3]:])))
        if n == 'as_bytes' and len(c.args) == 1:
            cs = self.tx(E, st, c.args[0])
            if cs is not None and not any(m for _, m in cs):
                return E.resume(st, c.ret, arr(tuple(map(cint, ''.join(x for x, _ in cs).encode()))))
        return DeH.ucall(self, E, st, c)


def starts(s):
    """The interpolations and directives which text in a template starts."""
    out, i = [], 0
    while i < len(s):
        if s[i:i + 3] in ('$${', '%%{'):
            i += 3
            continue
        if s[i:i + 2] in ('${', '%{'):
            out.append(i)
        i += 1
    return out


def escaped(s):
    return ''.join(c + c if c in '$%' and s[i + 1:i + 2] == '{' else c for i, c in enumerate(s))


def words():
    for k in range(5):
        for t in itertools.product('$%{a', repeat=k):
            yield ''.join(t)
    for t in itertools.product('$%{', repeat=5):
        yield ''.join(t)
    for s in ('${a}${b}', '$${a}${b}', 'a ${ b %{ c', '%{if a}b%{endif}', '\u00e9${', '$\u00e9{', '${\u00e9${', '"${"', '\\${', '$\n{', '%${%{', '$%{${', '{{${', '${${${', '$$$$$${', 'aaaaaaaaaaaaaaaa${'):
        yield s


def run(rep):
    F = load(serde=True)
    cx = DeCtx(F, rep)
    rep.rule('Escaped text starts no interpolation and no directive, is the text itself if it had none, and unescaping gives the text back.')
    fs = {}
    for n in ('escape_markers', 'unescape_markers'):
        xs = [g for g, f in F.fns.items() if f['crate'] == 'hcl_primitives' and g.split('::')[-1] == n]
        rep.oblige(len(xs) == 1, 'anchor:' + n, 'no function %s (anchor)' % n)
        fs[n] = xs[0] if len(xs) == 1 else None
    if None in fs.values():
        return

    def call(n, s):
        rep.count('texts')
        try:
            xs, E = cx.run(fs[n], None, None, args=lambda E: [cstr(s)], hooks=MarkerH)
        except Limit as e:
            rep.oblige(False, n + ':limit', '%s of %r: %s' % (n, s, e))
            return None
        rep.oblige(bool(xs), n + ':paths', '%s of %r gives no result' % (n, s))
        got = {name(E.full(st, v)) for st, v in xs}
        rep.oblige(len(got) == 1 and None not in got, n + ':text', '%s of %r gives an unknown text' % (n, s))
        return got.pop() if len(got) == 1 else None
    for s in words():
        e = call('escape_markers', s)
        if e is None:
            continue
        rep.oblige(not starts(e), 'escape:starts', 'the escaped text %r of %r starts an interpolation or directive' % (e, s))
        rep.oblige('${' in s or '%{' in s or e == s, 'escape:plain', 'escaping changes the plain text %r to %r' % (s, e))
        rep.oblige(e == escaped(s), 'escape:other', 'the escaped text of %r is %r and not %r' % (s, e, escaped(s)))
        u = call('unescape_markers', e)
        rep.oblige(u is None or u == s, 'restore', '%r is escaped to %r and restored as %r' % (s, e, u))
    rep.floor('texts', 1000)
