"""Texts of known shape: sequences of single characters, runs (one or more of the same character) and unknown values.

A run ('run', c) stands for every non-empty repetition of the character, so a result that holds for it holds for texts of
any length. Operations that would have to know where inside a run they stop split into the cases or give up."""
from common import *
import models

SPACE = set('\t\n\x0b\x0c\r\x20\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f'
            '\u205f\u3000')
STRT = ('str', 'string', 'alloc', 'slice')


def chars(toks):
    """Characters (c, run?) of tokens without unknown values."""
    out = []
    for t in toks:
        if t[0] == 'lit':
            out += [(c, False) for c in t[1]]
        elif t[0] == 'run':
            out.append((t[1], True))
        else:
            return None
    return tuple(out)


def text(cs):
    t = merge(tuple(('run', c) if m else ('lit', c) for c, m in cs))
    if not t:
        return cstr('')
    if len(t) == 1 and t[0][0] == 'lit':
        return cstr(t[0][1])
    return ('toks', t)


def norm(x):
    """Texts in one spelling."""
    if isinstance(x, tuple) and x and x[0] == 'toks':
        t = merge(x[1])
        if not t:
            return cstr('')
        if len(t) == 1 and t[0][0] == 'lit':
            return cstr(t[0][1])
        return ('toks', t)
    if isinstance(x, tuple):
        return tuple(norm(y) if isinstance(y, tuple) else y for y in x)
    return x


class Text:
    """Mixed into hooks: models of string operations on texts of known shape."""

    def tx(self, E, st, x):
        x = E.full(st, x)
        n = 0
        while x[0] == 'agg' and x[1] == 'adt' and x[4] and n < 5 and \
                (x[2] == COW or x[2].split('::')[-1] in ('InternalString', 'String', 'RawString')):
            x = x[4][0]
            n += 1
        if x[0] == 'const' and x[1] == 'str':
            return tuple((c, False) for c in x[2])
        if x[0] == 'const' and x[1] == 'char':
            return ((self.ch(x), False),)
        if x[0] == 'toks':
            return chars(x[1])
        return None

    def ch(self, x):
        c = x[2]
        return chr(c) if isinstance(c, int) else c

    def off(self, E, st, x, cs):
        """Position (number of items) for an offset value."""
        x = E.deref(st, x)
        if x[0] == 'off':
            return x[2] if x[1] == cs else None
        if x[0] == 'const':
            n, i = x[2], 0
            while n > 0 and i < len(cs) and not cs[i][1]:
                n -= len(cs[i][0].encode())
                i += 1
            return i if n == 0 else None
        if x[0] == 'op' and str(x[1]).startswith('Add') and len(x) >= 4:
            a, b = x[-2], x[-1]
            i = self.off(E, st, a, cs)
            if i is None or b[0] != 'const':
                return None
            n = b[2]
            while n > 0 and i < len(cs) and not cs[i][1]:
                n -= len(cs[i][0].encode())
                i += 1
            return i if n == 0 else None
        if x[0] == 'op' and str(x[1]).startswith('Sub') and len(x) >= 4:
            a, b = x[-2], x[-1]
            i = self.off(E, st, a, cs)
            if i is None or b[0] != 'const':
                return None
            n = b[2]
            while n > 0 and i > 0 and not cs[i - 1][1]:
                i -= 1
                n -= len(cs[i][0].encode())
            return i if n == 0 else None
        return None

    def offset(self, cs, i):
        if all(not m for _, m in cs[:i]):
            return cint(sum(len(c.encode()) for c, _ in cs[:i]))
        return ('off', cs, i)

    def pattern(self, E, st, p):
        """('str', items) | ('set', chars) | ('fn', value)"""
        v = E.deref(st, p)
        if v[0] == 'const' and v[1] == 'char':
            return ('set', (self.ch(v),))
        if v[0] in ('clos', 'fn'):
            return ('fn', v)
        if v[0] == 'agg' and v[1] == 'array' and all(x[0] == 'const' and x[1] == 'char' for x in v[4]):
            return ('set', tuple(self.ch(x) for x in v[4]))
        t = self.tx(E, st, v)
        if t is not None and all(not m for _, m in t):
            return ('str', tuple(c for c, _ in t))
        return None

    def text_call(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        R = lambda v: E.resume(st, c.ret, v)
        if not a:
            if np in ('string::String::new',):
                return R(cstr(''))
            return None
        if np == 'string::String::with_capacity':
            return R(cstr(''))
        if np.startswith('char::') or np.startswith('char::methods'):
            return self.char_call(E, st, c, n, a, R)
        if not np.startswith(('str::', 'string::', 'ops::Index::', 'fmt::Write::', 'iter::', 'cmp::Partial', 'vec::Vec::', 'slice::',
                              'convert::', 'borrow::', 'option::')):
            return None
        if np in ('fmt::Write::write_str', 'fmt::Write::write_char', 'string::String::push_str', 'string::String::push'):
            d = E.deref(st, a[0])
            if d[0] in ('toks', 'const') and not self.is_sink(E, st, d):
                r = self.emit(E, st, a[0], self.toks_of(E, st, a[1]), ('k', 'text_unit', None, c.ret) if 'String' in np else c.ret)
                return r
            return None
        if n in ('clear', 'truncate') and np.startswith('string::String') and a[0][0] == 'slot':
            if n == 'clear':
                E.store(st, a[0], cstr(''))
                return R(UNIT)
            return None
        if np.startswith(('convert::', 'borrow::', 'option::')):
            return None
        cs = self.tx(E, st, a[0])
        if cs is None:
            return None
        if np.startswith('iter::'):
            return None
        if np.startswith('cmp::Partial') and n in ('eq', 'ne'):
            ds = self.tx(E, st, a[1])
            if ds is None or E.full(st, a[1])[1] == 'char':
                return None
            eq = self.equal(cs, ds)
            return None if eq is None else R(cbool(eq == (n == 'eq')))
        if np.startswith('ops::Index::'):
            k = E.deref(st, a[1])
            if k[0] != 'agg' or k[1] != 'adt':
                return None
            nm = k[2].split('::')[-1]
            lo = 0 if nm in ('RangeTo', 'RangeFull', 'RangeToInclusive') else self.off(E, st, k[4][0], cs)
            hi = len(cs) if nm in ('RangeFrom', 'RangeFull') else self.off(E, st, k[4][0 if nm == 'RangeTo' else 1], cs)
            if lo is None or hi is None or lo > hi or 'Inclusive' in nm:
                return None
            return R(text(cs[lo:hi]))
        if n in ('to_string', 'to_owned', 'as_str', 'as_ref', 'into_owned', 'into', 'clone', 'into_string', 'into_boxed_str', 'as_mut_str'):
            return R(text(cs))
        if n == 'is_empty':
            return R(cbool(not cs))
        if n == 'len':
            return R(self.offset(cs, len(cs)))
        if n in ('chars',):
            return R(('it', 'list', tuple(cchar(x) for x, _ in cs), 0))
        if n in ('char_indices',):
            return R(('it', 'list', tuple(tup(self.offset(cs, i), cchar(x)) for i, (x, _) in enumerate(cs)), 0))
        if n == 'bytes' and all(ord(x) < 128 for x, _ in cs):
            return R(('it', 'list', tuple(cint(ord(x)) for x, _ in cs), 0))
        if n in ('as_bytes', 'into_bytes') and all(ord(x) < 128 and not m for x, m in cs):
            return R(('agg', 'array', None, None, tuple(cint(ord(x)) for x, _ in cs)))
        if n in ('trim', 'trim_start', 'trim_end'):
            v = [x in SPACE for x, _ in cs]
            return R(text(self.trimmed(cs, v, n)))
        if n in ('lines',):
            return R(('it', 'list', tuple(text(x) for x in self.lines(cs)), 0))
        if n == 'repeat':
            k = E.deref(st, a[1])
            return R(text(cs * k[2])) if k[0] == 'const' else None
        if n in ('trim_start_matches', 'trim_end_matches', 'trim_matches', 'find', 'rfind', 'contains', 'starts_with', 'ends_with',
                 'strip_prefix', 'strip_suffix', 'split', 'split_inclusive', 'split_terminator', 'split_once', 'rsplit_once', 'matches',
                 'replace', 'rsplit') \
                and np.startswith('str::') and len(a) > 1:
            p = self.pattern(E, st, a[1])
            if p is None:
                return None
            if p[0] == 'fn':
                return self.verdicts(E, st, p[1], cs, (), (n, tuple(a[2:]), c.line), c.ret)
            if p[0] == 'set':
                return self.by_char(E, st, n, cs, tuple(x in p[1] for x, _ in cs), a[2:], c.ret)
            return self.by_str(E, st, n, cs, p[1], a[2:], c.ret)
        return None

    def equal(self, a, b):
        if all(not m for _, m in a + b):
            return a == b
        if a == b:
            return None
        # first difference decides if it is before any run
        for (x, m), (y, k) in zip(a, b):
            if x != y:
                return False
            if m or k:
                return None
        return False if len(a) != len(b) and not any(m for _, m in a[:min(len(a), len(b))] + b[:min(len(a), len(b))]) else None

    def trimmed(self, cs, v, n):
        lo, hi = 0, len(cs)
        if n in ('trim', 'trim_start', 'trim_start_matches', 'trim_matches'):
            while lo < hi and v[lo]:
                lo += 1
        if n in ('trim', 'trim_end', 'trim_end_matches', 'trim_matches'):
            while lo < hi and v[hi - 1]:
                hi -= 1
        return cs[lo:hi]

    def lines(self, cs):
        out, cur = [], []
        for x, m in cs:
            if x == '\n':
                if cur and cur[-1] == ('\r', False):
                    cur.pop()
                out.append(tuple(cur))
                cur = []
            else:
                cur.append((x, m))
        if cur:
            out.append(tuple(cur))
        return out

    def verdicts(self, E, st, f, cs, acc, what, ret):
        if len(acc) == len(cs):
            return self.by_char(E, st, what[0], cs, acc, what[1], ret)
        return E.invoke(st, f, [cchar(cs[len(acc)][0])], ('k', 'text_verdict', (f, cs, acc, what), ret), what[2], ('text', len(acc)))

    def by_char(self, E, st, n, cs, v, rest, ret):
        R = lambda x: E.resume(st, ret, x)
        hit = [i for i, x in enumerate(v) if x]
        if n.startswith('trim'):
            return R(text(self.trimmed(cs, v, n)))
        if n in ('find', 'rfind'):
            if not hit:
                return R(NONE)
            i = hit[0] if n == 'find' else hit[-1]
            if n == 'rfind' and cs[i][1]:
                return None
            return R(some(self.offset(cs, i)))
        if n == 'contains':
            return R(cbool(bool(hit)))
        if n == 'starts_with':
            return R(cbool(bool(v) and v[0]))
        if n == 'ends_with':
            return R(cbool(bool(v) and v[-1]))
        if n in ('strip_prefix', 'strip_suffix'):
            pre = n == 'strip_prefix'
            if not v or not v[0 if pre else -1]:
                return R(NONE)
            x, m = cs[0 if pre else -1]
            rest_ = cs[1:] if pre else cs[:-1]
            out = E.resume(st.copy(), ret, some(text(rest_)))
            if m:
                out += E.resume(st, ret, some(text(((x, True),) + rest_ if pre else rest_ + ((x, True),))))
            return out
        if any(cs[i][1] for i in hit):
            return None
        if n in ('split', 'split_inclusive', 'split_terminator', 'rsplit'):
            out, cur = [], []
            for i, x in enumerate(cs):
                if v[i]:
                    out.append(tuple(cur) + ((x,) if n == 'split_inclusive' else ()))
                    cur = []
                else:
                    cur.append(x)
            if cur or n in ('split', 'rsplit'):
                out.append(tuple(cur))
            if n == 'rsplit':
                out.reverse()
            return R(('it', 'list', tuple(text(x) for x in out), 0))
        if n in ('split_once', 'rsplit_once'):
            if not hit:
                return R(NONE)
            i = hit[0] if n == 'split_once' else hit[-1]
            return R(some(tup(text(cs[:i]), text(cs[i + 1:]))))
        if n == 'matches':
            return R(('it', 'list', tuple(text((cs[i],)) for i in hit), 0))
        if n == 'replace':
            y = self.tx(E, st, rest[0])
            if y is None:
                return None
            out = ()
            for i, x in enumerate(cs):
                out += y if v[i] else (x,)
            return R(text(out))
        return None

    def by_str(self, E, st, n, cs, p, rest, ret):
        R = lambda x: E.resume(st, ret, x)
        if len(p) == 1:
            return self.by_char(E, st, n, cs, tuple(x == p[0] for x, _ in cs), rest, ret)
        if any(m and x in p for x, m in cs):
            return None
        at = lambda i: tuple(x for x, m in cs[i:i + len(p)] if not m) == p
        hit = [i for i in range(len(cs)) if at(i)]
        if n in ('starts_with', 'strip_prefix'):
            good = at(0)
            return R(cbool(good)) if n == 'starts_with' else R(some(text(cs[len(p):])) if good else NONE)
        if n in ('ends_with', 'strip_suffix'):
            good = len(cs) >= len(p) and at(len(cs) - len(p))
            return R(cbool(good)) if n == 'ends_with' else R(some(text(cs[:len(cs) - len(p)])) if good else NONE)
        if n == 'contains':
            return R(cbool(bool(hit)))
        if n in ('find', 'rfind'):
            return R(some(self.offset(cs, hit[0] if n == 'find' else hit[-1])) if hit else NONE)
        if n == 'split_once':
            return R(some(tup(text(cs[:hit[0]]), text(cs[hit[0] + len(p):]))) if hit else NONE)
        if n in ('split', 'replace'):
            out, i, cur = [], 0, []
            while i < len(cs):
                if at(i):
                    out.append(tuple(cur))
                    cur = []
                    i += len(p)
                else:
                    cur.append(cs[i])
                    i += 1
            out.append(tuple(cur))
            if n == 'split':
                return R(('it', 'list', tuple(text(x) for x in out), 0))
            y = self.tx(E, st, rest[0])
            if y is None:
                return None
            z = out[0]
            for x in out[1:]:
                z = z + y + x
            return R(text(z))
        return None

    def char_call(self, E, st, c, n, a, R):
        x = E.deref(st, a[0])
        if x[0] != 'const' or x[1] != 'char':
            return None
        ch = self.ch(x)
        asc = ord(ch) < 128
        t = {'is_whitespace': lambda: ch in SPACE, 'is_ascii_whitespace': lambda: ch in ' \t\n\r\x0c',
             'is_control': lambda: ord(ch) < 32 or 127 <= ord(ch) < 160, 'is_ascii_control': lambda: ord(ch) < 32 or ord(ch) == 127,
             'is_ascii': lambda: asc, 'is_ascii_digit': lambda: asc and ch.isdigit(), 'is_numeric': lambda: ch.isnumeric(),
             'is_ascii_alphabetic': lambda: asc and ch.isalpha(), 'is_ascii_alphanumeric': lambda: asc and ch.isalnum(),
             'is_alphabetic': lambda: ch.isalpha(), 'is_alphanumeric': lambda: ch.isalnum(),
             'is_ascii_graphic': lambda: 33 <= ord(ch) < 127, 'is_ascii_punctuation': lambda: asc and 33 <= ord(ch) < 127 and not ch.isalnum(),
             'is_ascii_hexdigit': lambda: asc and ch in '0123456789abcdefABCDEF',
             'is_lowercase': lambda: ch.islower(), 'is_uppercase': lambda: ch.isupper()}.get(n)
        if t:
            return R(cbool(bool(t())))
        if n == 'len_utf8':
            return R(cint(len(ch.encode())))
        return None


@cont('text_unit')
def k_unit(E, st, d, ret, v):
    return E.resume(st, ret, UNIT)


@cont('text_verdict')
def k_verdict(E, st, d, ret, v):
    f, cs, acc, what = d
    v = E.deref(st, v)
    if v[0] != 'const':
        return E.resume(st, ret, TOP)
    return E.H.verdicts(E, st, f, cs, acc + (bool(v[2]),), what, ret)
