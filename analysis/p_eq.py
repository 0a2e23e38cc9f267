"""P05: equality compares every semantic part and only those."""
from common import *

EXEMPT_TYPES = ('hcl_edit::repr::Decor',)
# layout preferences of the printer; equality may or may not look at them
LAYOUT = {('Body', 'prefer_oneline'), ('Body', 'prefer_omit_trailing_newline'), ('Formatted', 'repr'),
          ('Array', 'trailing_comma'), ('FuncArgs', 'trailing_comma'), ('HeredocTemplate', 'indent'),
          ('ObjectValue', 'assignment'), ('ObjectValue', 'terminator')}


def never(t):
    """Types which must not influence a comparison."""
    if t[0] == 'adt' and t[1] in EXEMPT_TYPES:
        return True
    return t[0] == 'adt' and t[1] == OPT and t[2][0][0] == 'adt' and t[2][0][1].endswith('ops::range::Range')


def optional(a, f):
    t = f['ty']
    if t[0] == 'adt' and (t[1].endswith('::RawString') or t[1].endswith('::PhantomData')):
        return True
    return (a['id'].split('::')[-1], f['name']) in LAYOUT


class EqHooks(Hooks):
    def __init__(self, entry):
        self.exits, self.entry, self.n = [], entry, 0

    def on_call(self, E, st, c):
        if c.trait == 'core::cmp::PartialEq' and c.np.split('::')[-1] in ('eq', 'ne') or \
                c.np in ('iter::Iterator::eq', 'iter::Iterator::ne'):
            a, b = [self.peel(E, st, x) for x in c.args[:2]]
            self.n += 1
            r = ('op', 'Eq', a, b)
            if a[0] == 'const' or b[0] == 'const' and a[0] == 'const':
                return None
            if c.np.endswith('ne'):
                r = ('op', 'Not', r)
            return E.resume(st, c.ret, r)
        return None

    def peel(self, E, st, v):
        v = E.full(st, v)
        while v[0] == 'it' and len(v) > 2 and isinstance(v[2], tuple):
            v = v[2]
        return v

    def on_exit(self, E, st, value):
        self.exits.append((st, E.full(st, value)))


def swap(t, a, b):
    if t == a:
        return b
    if t == b:
        return a
    if isinstance(t, tuple):
        return tuple(swap(x, a, b) for x in t)
    return t


def truths(E, st, value):
    """Comparisons known to hold when the function returns true here; None when it returns false."""
    out, false = [], []

    def add(t, val):
        if t[0] == 'op' and t[1] == 'Not':
            return add(t[2], not val)
        if t[0] == 'op' and t[1] == 'BitAnd' and val:
            add(t[2], True)
            add(t[3], True)
            return
        if t[0] == 'op' and t[1] == 'Eq':
            (out if val else false).append((t[2], t[3]))
        if t[0] == 'op' and t[1] == 'Ne':
            (false if val else out).append((t[2], t[3]))
    for k, v in st.facts.items():
        if k[0] == 'op' and v[0] == 'in' and len(v[1]) == 1:
            add(k, 1 in v[1])
    ret = None
    if value[0] == 'const':
        ret = bool(value[2])
    else:
        add(value, True)
    flat = []
    for a, b in out:
        if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] == 'tuple':
            flat += list(zip(a[4], b[4]))
        flat.append((a, b))
    return ret, flat, false


def run(rep):
    F = load()
    rep.rule('a comparison returns true only on paths on which every semantic constituent of both sides was compared '
             'and found equal, constituent with the same constituent; surrounding trivia and positions are never read')
    for im in sorted(F.by_trait.get('core::cmp::PartialEq', []), key=lambda i: i['items'][0]['id']):
        if im['crate'] not in ('hcl_edit', 'hcl_primitives', 'hcl') or im['selfty'][0] != 'adt':
            continue
        adt = F.adts.get(im['selfty'][1])
        if adt is None or adt['id'].startswith('hcl_primitives::number'):
            continue
        if any(x in adt['id'] for x in ('::error::', '::RawString', '::Decor', 'FormatState', '::parser::', '::Location')) and \
                not adt['id'].endswith('Decorated'):
            if not adt['id'].endswith('::Decorated'):
                continue
        if im['targty'][1:] and im['targty'][1] != im['selfty']:
            continue
        fid = [it['id'] for it in im['items'] if it['name'] == 'eq'][0]
        h = EqHooks(fid)
        E = Engine(F, h)
        s, o = E.sym('self', im['selfty']), E.sym('other', im['selfty'])
        nm = F.tstr(im['selfty'])
        try:
            E.run(fid, [s, o])
        except Limit as e:
            rep.oblige(False, '%s:limit' % fid, 'analysis limit in %s: %s' % (fid, e))
            continue
        rep.count('comparison functions')
        isenum = adt['kind'] == 'Enum'
        sub = dict(zip(adt['generics'], im['selfty'][2]))
        where = '%s (%s)' % (F.fnname(fid), line_of(F, fid))
        trues = 0
        for st, value in h.exits:
            ret, eqs, nes = truths(E, st, value)
            for a, b in eqs + nes:
                ta = E.typeof(a)
                if ta and a[0] == 'fld' and never(ta) or mentions_never(E, a):
                    rep.oblige(False, '%s:reads:%s' % (fid, E.show(a)), '%s: %s influences the comparison' % (where, E.show(a)))
            if ret is False:
                continue
            trues += 1
            vs = E.variants(st, s, adt['id']) if isenum else [0]
            vo = E.variants(st, o, adt['id']) if isenum else [0]
            deq = any({a, b} == {('discr', s, adt['id']), ('discr', o, adt['id'])} or
                      {x[0] for x in (a, b)} == {'discr'} and {a[1], b[1]} == {s, o} for a, b in eqs)
            whole = any({a, b} == {s, o} for a, b in eqs)
            if whole:
                continue
            if isenum and deq:
                vs = [v for v in vs if v in vo]
                vo = vs
            for vi in vs:
                if isenum and not deq and list(vo) != [vi]:
                    rep.oblige(False, '%s:variant' % fid, '%s: values of different variants may compare equal' % where, E.trace(st))
                v = adt['variants'][vi]
                for i, f in enumerate(v['fields']):
                    if never(f['ty']) or optional(adt, f):
                        continue
                    x = ('fld', s, vi if isenum else None, i)
                    y = ('fld', o, vi if isenum else None, i)
                    good = any({a, b} == {x, y} for a, b in eqs) or covered(F, E, x, s, o, f['ty'], eqs)
                    rep.count('compared constituents')
                    rep.oblige(good, '%s:miss:%s' % (fid, E.show(x)),
                               '%s: two values may compare equal although %s differs' % (where, E.show(x)), [])
        rep.oblige(trues > 0 or not adt['variants'], '%s:never' % fid, '%s never returns true' % where)
        # reflexive: no path returns false without a difference
        for st, value in h.exits:
            ret, eqs, nes = truths(E, st, value)
            if ret is False and not nes and not differ(E, st, s, o, adt):
                rep.oblige(False, '%s:false' % fid, '%s returns false without having found a difference' % where)
    rep.floor('comparison functions', 70)
    rep.floor('compared constituents', 120)


def differ(E, st, s, o, adt):
    if adt['kind'] != 'Enum':
        return False
    a, b = E.variants(st, s, adt['id']), E.variants(st, o, adt['id'])
    return a is not None and b is not None and a != b


def mentions_never(E, a):
    if a[0] == 'fld':
        t = E.typeof(a)
        if t and never(t):
            return True
        return mentions_never(E, a[1])
    if a[0] in ('elem', 'idx'):
        return mentions_never(E, a[1])
    return False


def covered(F, E, x, s, o, ty, eqs):
    """All semantic constituents of x (a struct) were compared one by one."""
    t = E.strip(ty)
    if t[0] != 'adt' or t[1] not in F.adts or F.adts[t[1]]['kind'] != 'Struct':
        return False
    a = F.adts[t[1]]
    sub = dict(zip(a['generics'], t[2]))
    fs = [(i, f) for i, f in enumerate(a['variants'][0]['fields']) if not never(f['ty']) and not optional(a, f)]
    if not fs:
        return False
    for i, f in fs:
        y = ('fld', x, None, i)
        z = swap(y, s, o)
        if not (any({p, q} == {y, z} for p, q in eqs) or covered(F, E, y, s, o, F.subst(f['ty'], sub), eqs)):
            return False
    return True
