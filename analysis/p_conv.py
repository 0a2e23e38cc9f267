"""P04: conversions between the editable and the plain representation are inverse to each other."""
from common import *

FROM = 'core::convert::From'
LAYOUT_FIELDS = {('ObjectValue', 'assignment'), ('ObjectValue', 'terminator'), ('Body', 'prefer_oneline'),
                 ('Body', 'prefer_omit_trailing_newline'), ('Array', 'trailing_comma'), ('FuncArgs', 'trailing_comma'),
                 ('Formatted', 'repr')}
WRAPPERS = ('hcl_edit::repr::Decorated', 'hcl_edit::repr::Spanned', 'hcl_edit::repr::Formatted')


def side(t):
    return t[1].split('::')[0] if t[0] == 'adt' else None


def never(t):
    if t[0] == 'adt' and (t[1] == 'hcl_edit::repr::Decor' or t[1].endswith('::RawString') or t[1].endswith('::Splat')):
        return True
    if t[0] == 'adt' and t[1].endswith('PhantomData'):
        return True
    return t[0] == 'adt' and t[1] == OPT and t[2][0][0] == 'adt' and (t[2][0][1].endswith('ops::range::Range') or
                                                                     t[2][0][1].endswith('::RawString'))


def core(t):
    """Peels value wrappers which carry nothing but layout."""
    while t[0] == 'adt' and t[1] in WRAPPERS and t[2]:
        t = t[2][0]
    return t


class ConvHooks(Hooks):
    mapc = True

    def __init__(self, F, entry, pairs):
        self.F, self.entry, self.pairs, self.exits, self.deps = F, entry, pairs, [], set()
        self.same = ()

    def top(self, st):
        return False

    def on_call(self, E, st, c):
        if c.trait in (FROM, 'core::convert::Into') and len(c.targs) >= 2:
            dst, src = (c.targs[0], c.targs[1]) if c.trait == FROM else (c.targs[1], c.targs[0])
            if dst[0] == 'adt' and src != dst:
                x = E.full(st, c.args[0])
                if (x[2] if x[0] == 'agg' and x[1] == 'adt' else x[1][1][1] if x[0] == 'conv' else
                        (E.typeof(x) or (0, 0))[1]) == dst[1]:
                    return E.resume(st, c.ret, x)
            if dst[0] == 'adt' and src[0] == 'adt':
                k = (core(src), core(dst))
                if k in self.pairs and k[0] != k[1] and not (k in self.same and self.top(st)):
                    x = E.full(st, c.args[0])
                    while x[0] == 'agg' and x[1] == 'adt' and x[2] in WRAPPERS:
                        x = x[4][0]
                    self.deps.add(k)
                    xs = self.unwrap(E, x)
                    if xs[0] == 'conv' and xs[1] == (k[1], k[0]):
                        return E.resume(st, c.ret, xs[2])
                    return E.resume(st, c.ret, ('conv', k, xs))
        if c.np == 'hcl_edit::structure::body::Body::push' and c.args[0][0] == 'slot':
            # appends, unless it is an attribute whose key is already taken (P21): unique keys assumed here
            a = E.F.adts['hcl_edit::structure::body::Body']
            i = [k for k, f in enumerate(a['variants'][0]['fields']) if f['name'] == 'structures'][0]
            slot = c.args[0]
            from models import coll_add
            x = E.full(st, c.args[1])
            k = (x[1][1] if x[0] == 'conv' else E.typeof(x), ('adt', 'hcl_edit::structure::Structure', ()))
            if k in self.pairs:
                self.deps.add(k)
                x = x[2] if x[0] == 'conv' and x[1] == (k[1], k[0]) else ('conv', k, x)
            tgt = ('slot', slot[1], slot[2], slot[3] + ((None, i),))
            self.on_push(E, st, c, tgt, x)
            coll_add(E, st, tgt, x)
            return E.resume(st, c.ret, UNIT)
        if c.np.endswith('HeredocTemplate::dedent') and c.argtys and c.args[0][0] == 'slot':
            # removes indentation from the template and records that it did
            slot = c.args[0]
            a = E.F.adts.get('hcl_edit::template::HeredocTemplate')
            i = [k for k, f in enumerate(a['variants'][0]['fields']) if f['name'] == 'indent'] if a else []
            if i:
                E.store(st, ('slot', slot[1], slot[2], slot[3] + ((None, i[0]),)), some(('opq', 'indent', 0)))
                return E.resume(st, c.ret, UNIT)
        return None

    # collections filled by loops: one element must be added per element of the source
    def on_push(self, E, st, c, tgt, item):
        st.mon = (st.mon or frozenset()) | frozenset(('pushed', x) for x in sources(item))
        return False

    def on_elem_start(self, E, st, src):
        st.mon = frozenset(m for m in (st.mon or ()) if m != ('pushed', src))

    def on_elem_end(self, E, st, src):
        if ('pushed', src) not in (st.mon or ()):
            st.mon = (st.mon or frozenset()) | frozenset([('bad', src)])

    def uncoll(self, st, v):
        return uncoll(st, v)

    def unwrap(self, E, x):
        return x

    def on_nonlinear(self, E, st, it):
        st.mon = (st.mon or frozenset()) | frozenset(['nonlinear'])

    def on_exit(self, E, st, value):
        self.exits.append((st, E.full(st, value)))


def strip_wrap(F, E, t):
    """Normal form of a term: wrapper aggregates and wrapper projections dropped."""
    return t


def matches(F, E, st, r, s, ty, path, bad):
    """Is r the same value as s (term of type ty), up to layout?"""
    ty0 = E.strip(ty)
    if r == s:
        return
    if ty0[0] == 'adt' and ty0[1] in WRAPPERS:
        a = F.adts[ty0[1]]
        i = [k for k, f in enumerate(a['variants'][0]['fields']) if f['name'] == 'value'][0]
        inner = ty0[2][0]
        s2 = ('fld', s, None, i)
        r2 = E.fieldof(st, r, None, i) if r[0] == 'agg' and r[2] == ty0[1] else r
        return matches(F, E, st, r2, s2, inner, path, bad)
    # r may be the wrapped form of s
    while r[0] == 'agg' and r[1] == 'adt' and r[2] in WRAPPERS and not (ty0[0] == 'adt' and ty0[1] in WRAPPERS):
        r = r[4][0]
    if r == s:
        return
    if text_of(r, s) or r[:2] == ('opq', 'indent'):
        return
    if r[0] == 'const':
        f = st.facts.get(s)
        if f and f[0] == 'in' and len(f[1]) == 1 and list(f[1])[0] == (int(r[2]) if not isinstance(r[2], str) else r[2]):
            return
    if ty0[0] == 'adt' and ty0[1] in (OPT,):
        for vi in E.variants(st, s, OPT):
            rv = E.variants(st, r, OPT) if r[0] != 'top' else None
            if r[0] == 'agg' and r[3] != vi:
                bad.append((path, 'presence of the value changes'))
            elif r[0] == 'agg' and vi == 1:
                matches(F, E, st, r[4][0], ('fld', s, 1, 0), ty0[2][0], path, bad)
            elif r[0] != 'agg':
                if vi == 1:
                    matches(F, E, st, E.fieldof(st, r, 1, 0), ('fld', s, 1, 0), ty0[2][0], path, bad)
        return
    el = E.elemty(ty0)
    if el is not None:
        if r[0] == 'mapc' and r[2] == ('elem', r[1]) and r[3] == 'full':
            return matches(F, E, st, r[1], s, ty, path, bad)
        if r[0] == 'mapc' and r[1] == s and r[3] == 'full':
            return matches(F, E, st, r[2], ('elem', s), el, path + '[*]', bad)
        if r[0] == 'coll' and len(r[1]) == 1 and not ({'nonlinear', ('bad', s)} & (st.mon or frozenset())):
            return matches(F, E, st, list(r[1])[0], ('elem', s), el, path + '[*]', bad)
        if r == ('coll', frozenset()) and st.facts.get(('empty', s)) == ('in', frozenset([1])):
            return
        bad.append((path, 'the elements become %s' % E.show(r)))
        return
    if ty0[0] == 'tuple' and r[0] == 'agg':
        for i, t in enumerate(ty0[1]):
            matches(F, E, st, r[4][i], ('fld', s, None, i), t, '%s.%d' % (path, i), bad)
        return
    if ty0[0] == 'adt' and ty0[1] in F.adts and r[0] == 'agg' and r[1] == 'adt' and r[2] == ty0[1]:
        a = F.adts[ty0[1]]
        isenum = a['kind'] == 'Enum'
        sub = dict(zip(a['generics'], ty0[2]))
        if isenum:
            vs = E.variants(st, s, ty0[1])
            if vs != frozenset([r[3]]):
                bad.append((path, '%s becomes %s' % ('|'.join(F.vname(ty0[1], v) for v in sorted(vs)), F.vname(ty0[1], r[3]))))
                return
        v = a['variants'][r[3] or 0]
        for i, f in enumerate(v['fields']):
            if never(f['ty']) or (a['id'].split('::')[-1], f['name']) in LAYOUT_FIELDS:
                continue
            x = r[4][i] if i < len(r[4]) else TOP
            if f['name'] == 'else_strip' and any(
                    g['name'] == 'false_template' and 1 not in E.variants(st, ('fld', s, None, j), OPT)
                    for j, g in enumerate(v['fields'])):
                continue    # no else branch, no marker
            matches(F, E, st, x, ('fld', s, r[3] if isenum else None, i), F.subst(f['ty'], sub),
                    '%s.%s%s' % (path, (v['name'] + '.') if isenum else '', f['name']), bad)
        return
    if ty0[0] == 'adt' and ty0[1] in F.adts and F.adts[ty0[1]]['kind'] == 'Struct':
        # compare constituents
        a = F.adts[ty0[1]]
        sub = dict(zip(a['generics'], ty0[2]))
        fs = [(i, f) for i, f in enumerate(a['variants'][0]['fields']) if not never(f['ty']) and
              (a['id'].split('::')[-1], f['name']) not in LAYOUT_FIELDS]
        if r[0] in ('mapc', 'coll') and len(fs) == 1:
            i, f = fs[0]
            return matches(F, E, st, r, ('fld', s, None, i), F.subst(f['ty'], sub), path, bad)
        if r[0] in ('fld', 'elem', 'sym') and E.typeof(r) == ty0:
            bad.append((path, 'it is taken from %s' % E.show(r)))
            return
    if never(ty0):
        return
    bad.append((path, 'it becomes %s' % E.show(r)))


def sources(t):
    """Collections whose elements occur in t."""
    out = set()

    def go(x):
        if isinstance(x, tuple) and x:
            if x[0] == 'elem':
                out.add(x[1])
                return
            for y in x:
                go(y)
    go(t)
    return out


def uncoll(st, v):
    if v[0] == 'coll' and len(v[1]) == 1:
        x = next(iter(v[1]))
        ss = sources(x)
        if len(ss) == 1:
            s = next(iter(ss))
            if not ({'nonlinear', ('bad', s)} & (st.mon or frozenset())):
                return s if x == ('elem', s) else ('mapc', s, x, 'full')
    return v


def uncoll_all(st, t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'coll':
        return uncoll(st, ('coll', frozenset(uncoll_all(st, x) for x in t[1])))
    return tuple(uncoll_all(st, x) if isinstance(x, tuple) else x for x in t)


def text_of(r, s):
    """print(parse(s)) and parse(print(s)): template text, the subject of the printing properties."""
    if r[:2] == ('op', 'string::ToString::to_string'):
        x = inner_parse(r[-1])
        return x == s
    if r[0] == 'fld' and r[1][:2] == ('op', 'str::impl::parse') and r[1][-1][:2] == ('op', 'string::ToString::to_string'):
        x = r[1][-1][-1]
        return x == s
    return False


def inner_parse(t):
    while True:
        if t[:2] == ('op', 'str::impl::parse'):
            return t[-1]
        if t[0] == 'fld':
            t = t[1]
        elif t[0] == 'agg' and t[4]:
            t = t[4][0]
        else:
            return None


def unparsable(st):
    return any(k[0] == 'discr' and k[1][:2] == ('op', 'str::impl::parse') and v == ('in', frozenset([1]))
               for k, v in st.facts.items())


def norm(F, E, t, memo=None):
    """Rewrites projections of wrapper values: conv of a wrapper is conv of its value."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'conv':
        x = norm(F, E, t[2])
        return ('conv', t[1], peelw(F, E, x))
    return tuple(norm(F, E, x) if isinstance(x, tuple) else x for x in t)


def peelw(F, E, x):
    t = E.typeof(x)
    n = 0
    while t and t[0] == 'adt' and t[1] in WRAPPERS and n < 4 and x[0] in ('sym', 'fld', 'elem', 'idx'):
        a = F.adts[t[1]]
        i = [k for k, f in enumerate(a['variants'][0]['fields']) if f['name'] == 'value'][0]
        x = ('fld', x, None, i)
        t = E.typeof(x)
        n += 1
    return x


def run(rep):
    F = load()
    convs, full = {}, []
    for im in F.by_trait.get(FROM, []):
        if len(im['targty']) < 2:
            continue
        dst, src = im['targty'][0], im['targty'][1]
        if src[0] != 'adt' or dst[0] != 'adt':
            continue
        s, d = core(src), core(dst)
        if {side(s), side(d)} != {'hcl_edit', 'hcl'} and {side(s), side(d)} != {'hcl_primitives', 'hcl'}:
            continue
        fid = [it['id'] for it in im['items'] if it['name'] == 'from'][0]
        if fid not in F.fns:
            continue
        convs.setdefault((s, d), fid)
        full.append((src, dst, fid))
    rep.rule('for every pair of conversions A->B, B->A between the plain and the editable tree: the composition maps '
             'every variant and every semantic field of A to itself (nested conversions cancel by their own obligation)')
    short = lambda t: F.tstr(t) + ('' if side(t) != 'hcl_edit' else ' (editable)')
    convs = {k: v for k, v in convs.items() if (k[1], k[0]) in convs}
    byfull = {(x, y): f for x, y, f in full}
    for a, b, f1 in sorted(full, key=lambda x: x[2]):
        if core(a) == core(b) or (core(a), core(b)) not in convs:
            continue
        f2 = byfull.get((b, a)) or convs[(core(b), core(a))]
        if (b, a) not in byfull and core(a) == a and core(b) == b:
            continue
        key = '%s->%s' % (F.tstr(a) + '@' + side(a), F.tstr(b) + '@' + side(b))
        h = ConvHooks(F, f1, convs)
        E = Engine(F, h)
        s = E.sym('value', F.fns[f1]['lty'][1])
        try:
            E.run(f1, [s])
            firsts = h.exits
            rep.oblige(bool(firsts), key + ':none', 'the conversion %s never returns' % key)
            for st, v in firsts:
                if unparsable(st):
                    continue
                h2 = ConvHooks(F, f2, convs)
                E2 = Engine(F, h2)
                E2.symty.update(E.symty)
                E2.visited = set()
                run_from(E2, f2, uncoll_all(st, v), st)
                for st2, r in h2.exits:
                    if unparsable(st2):
                        continue
                    rep.count('conversion paths')
                    bad = []
                    rn = norm(F, E2, uncoll_all(st2, r))
                    matches(F, E2, st2, cancel(F, E2, rn), s, F.fns[f1]['lty'][1], 'value', bad)
                    fx = MustHooks.path_facts(h2, E2, st2)
                    for p, m in bad:
                        rep.oblige(False, '%s:%s' % (key, p),
                                   'converting %s to %s (%s) and back (%s): %s: %s%s' % (
                                       short(a), short(b), line_of(F, f1), line_of(F, f2), p, m,
                                       (' [where %s]' % ', '.join(fx)) if fx else ''))
                    if not bad:
                        rep.oblige(True, '', '')
                if not h2.exits:
                    rep.oblige(False, key + ':noback', 'the conversion back of %s never returns' % key)
        except Limit as e:
            rep.oblige(False, key + ':limit', 'analysis limit: %s' % e)
        rep.count('conversion pairs')
        rep.sample('%s and back: %d paths' % (key, rep.counts.get('conversion paths', 0)))
    rep.floor('conversion pairs', 30)


def cancel(F, E, t):
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(cancel(F, E, x) if isinstance(x, tuple) else x for x in t)
    if t[0] == 'conv' and t[2][0] == 'fld' and t[2][3] == 0 and t[2][1][0] == 'conv' and \
            t[2][1][1] == (t[1][1], t[1][0]):
        # the inner conversion yields the wrapped form, this takes the wrapped value
        return t[2][1][2]
    if t[0] == 'conv' and t[2][0] == 'conv' and t[2][1] == (t[1][1], t[1][0]):
        return t[2][2]
    return t


def run_from(E, fid, v, st0):
    st = State()
    E.entry = fid
    st.mon = st0.mon
    st.facts = dict(st0.facts)
    st.mem = dict(st0.mem)
    st.stack = (Frame0(fid, E),)
    E.inlined.add(fid)
    st.env[(0, 1)] = v
    E.push(st)
    while E.work:
        s = E.work.pop()
        E.nstates += 1
        if E.nstates > E.H.max_states:
            raise Limit('state limit in %s' % fid)
        for n in E.step(s):
            E.push(n)


def Frame0(fid, E):
    from engine import Frame
    return Frame((fid, (), ('exit',), E.F.fns[fid]['span'][1]))
