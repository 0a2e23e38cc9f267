"""P01: everything the parser stored as a source range is resolved to text."""
from common import *

RAW = 'hcl_edit::raw_string::RawString'


class DespanHooks(MustHooks):
    def __init__(self, F, methods):
        super().__init__(F, 'despan')
        self.methods = methods          # fn id -> self type

    plain_repr = False

    def skip_field(self, adt, variant, field):
        return self.plain_repr and adt['id'].endswith('::Formatted') and field['name'] == 'repr'

    def is_event_type(self, ty):
        return ty[0] == 'adt' and any(m[1] == ty[1] for m in self.methods.values())

    def event_of(self, E, st, call):
        fid = call.res[0] if call.res else call.id
        if fid in self.methods and len(call.args) >= 2:
            src = E.full(st, call.args[1])
            if src != ('sym', self.inputname):
                self.failures.setdefault(('input', E.show(src)), (
                    'a part is resolved with %s instead of the source text' % E.show(src), E.trace(st)))
            return E.full(st, call.args[0])
        return None


def despan_methods(F):
    out = {}
    for f in F.fns.values():
        if f['crate'] == 'hcl_edit' and f.get('name') == 'despan' and f['argc'] >= 2:
            im = F.impl_of_fn.get(f['id'])
            if im:
                t = im['selfty']
                if t[0] == 'adt':
                    out[f['id']] = t
    return out


def trivia_reprs(F):
    """Types stored as the external representation of a value (`Formatted`): only plain text?"""
    out = []
    for f in F.fns.values():
        for b in f['blocks']:
            t = b['t']
            if t[0] == 'call' and 'id' in t[1] and t[1]['id'].endswith('Formatted::set_repr') or \
                    t[0] == 'call' and 'path' in t[1] and norm_path(t[1]['path']).endswith('Formatted::set_repr'):
                out.append((f, [f['T'][x] for x in t[1]['args'] if isinstance(x, int)]))
    return out


class RawHooks(Hooks):
    def __init__(self, modular=True):
        self.exits = []
        self.rets = []
        self.modular = modular

    def on_call(self, E, st, call):
        if self.modular and call.trait == 'core::convert::From' and call.targs and \
                call.targs[0] == ('adt', RAW, ()):
            return E.resume(st, call.ret, ('op', 'text', None, E.full(st, call.args[0])))
        return None

    def on_exit(self, E, st, value):
        self.rets.append((None, st, value))
        self.exits.append((E.full(st, st.mem.get(('sym', 'self'), ('sym', 'self'))), st))


def mentions(t, pred):
    if not isinstance(t, tuple):
        return False
    return bool(t) and (pred(t) or any(mentions(x, pred) for x in t))


def run(rep):
    F = load()
    ms = despan_methods(F)
    rep.rule('for every node type of the editable document: its resolution method resolves, on every path, every '
             'constituent (transitively containing captured trivia) of the node, with the same source text')
    raw = [f for f, t in ms.items() if t[1] == RAW]
    rep.oblige(len(raw) == 1, 'anchor:raw', 'RawString resolution method not found')
    # representations of numbers are handed over as text, never as a range of the source
    reprs = trivia_reprs(F)
    plain = bool(reprs)
    for f, targs in reprs:
        bad = [t for t in targs if mentions(t, lambda x: x[:1] == ('adt',) and (x[1] == RAW or 'Range' in x[1]))]
        rep.count('representation writes')
        if bad:
            plain = False
    rep.floor('representation writes', 2)
    for fid, t in sorted(ms.items()):
        if t[1] == RAW:
            continue
        h = DespanHooks(F, ms)
        h.plain_repr = plain
        f = F.fns[fid]
        h.inputname = param_names(F, fid).get(2, 'arg1')
        must_fn(rep, F, h, fid, [0], None, 'resolved')
        rep.count('node types')
        rep.count('resolution calls', h.events)
    rep.floor('node types', 36)

    # the leaf: a captured range becomes exactly the text of the source at this range
    rep.rule('resolving a captured range replaces it by the source text at exactly that range')
    inner = [a for a in F.adts if a.endswith('::RawStringInner')]
    for fid in raw:
        h = RawHooks()
        E = Engine(F, h)
        E.sym('self', ('adt', RAW, ()))
        E.sym('input', ('prim', 'str'))
        E.run(fid, [('sym', 'self'), ('sym', 'input')])
        inn = inner[0] if inner else None
        vi = F.vindex(inn, 'Spanned') if inn else None
        seen = 0
        for v, st in h.exits:
            disc = st.facts.get(('discr', ('fld', ('sym', 'self'), None, 0)))
            vs = E.variants(st, ('fld', ('sym', 'self'), None, 0), inn)
            # after the write facts about self are gone; the span variant is the path that wrote
            if v == ('sym', 'self'):
                spanpath = vi in vs
                rep.oblige(not spanpath, 'raw:unresolved', '%s (%s): a captured range is left unresolved on a path' % (
                    F.fnname(fid), line_of(F, fid)), E.trace(st))
                continue
            seen += 1
            src = ('fld', ('fld', ('sym', 'self'), None, 0), vi, 0)
            good = mentions(v, lambda x: x[:2] == ('op', 'str::impl::get') and x[-2:] == (('sym', 'input'), src)) or \
                mentions(v, lambda x: x[0] in ('at', 'op') and ('sym', 'input') in x and src in x)
            rep.oblige(good, 'raw:text', '%s (%s): the text stored for a captured range is %s, not the source text at '
                       'this range' % (F.fnname(fid), line_of(F, fid), E.show(v)))
        rep.count('leaf resolution paths', seen)
    rep.floor('leaf resolution paths', 1)

    # text stored by the constructors
    rep.rule('a stored text is the text it was created from; it is dropped only when it is empty')
    for im in F.impls:
        if im['traitid'] != 'core::convert::From' or im['selfty'] != ('adt', RAW, ()):
            continue
        for it in im['items']:
            if it['kind'] != 'fn' or it['id'] not in F.fns:
                continue
            h = RawHooks(False)
            E = Engine(F, h)
            s = E.sym('s', F.fns[it['id']]['lty'][1])
            E.run(it['id'], [s])
            rep.count('text constructors')
            for v, st, ret in h.rets:
                r = E.full(st, ret)
                emptyfact = [k for k, fv in st.facts.items() if k[0] == 'empty' and contains(k[1], s) and fv == ('in', frozenset([1]))]
                rep.oblige(contains(r, s) or bool(emptyfact), 'text:%s' % it['id'],
                           '%s (%s): non-empty text is replaced by %s' % (F.fnname(it['id']), line_of(F, it['id']), E.show(r)))
    rep.floor('text constructors', 4)

    # every public way from text to document resolves the result with the parsed text
    rep.rule('every function of the public interface which turns text into an editable document resolves the whole '
             'result with that text before returning it')
    tops = {t[1]: f for f, t in ms.items()}
    entries = []
    for f in F.fns.values():
        if f['crate'] != 'hcl_edit' or not f.get('sig') and f['argc'] != 1:
            continue
        if f['argc'] != 1 or not f['lty'][1] == ('ref', False, ('prim', 'str')):
            continue
        r = f['lty'][0]
        if r[0] == 'adt' and r[1] == RES and r[2][0][0] == 'adt' and r[2][0][1] in tops and f.get('blocks'):
            entries.append((f, r[2][0]))
    for f, t in entries:
        h = EntryHooks(F, ms)
        E = Engine(F, h)
        E.sym('input', ('prim', 'str'))
        E.run(f['id'], [('sym', 'input')])
        rep.count('entry points')
        rep.oblige(h.okexits > 0, 'entry:%s' % f['id'], '%s never returns a document' % F.fnname(f['id']))
        for b in h.bad:
            rep.oblige(False, 'entry:%s:%s' % (f['id'], b), '%s (%s): %s' % (F.fnname(f['id']), line_of(F, f['id']), b))
        if not h.bad:
            rep.oblige(True, '', '')
            rep.sample('%s resolves its result' % F.fnname(f['id']))
    rep.floor('entry points', 6)


class EntryHooks(Hooks):
    def __init__(self, F, ms):
        self.F, self.ms, self.bad, self.okexits = F, ms, set(), 0

    def on_call(self, E, st, call):
        fid = call.res[0] if call.res else call.id
        if call.np.endswith('parse_complete') or (call.trait or '').endswith('winnow::Parser') or 'winnow' in call.np:
            # opaque parser run: succeeds with a fresh document, or fails
            doc = ('opq', 'parsed', call.site)
            a = st.copy()
            return E.resume(a, call.ret, ok(doc)) + E.resume(st, call.ret, err(TOP))
        if fid in self.ms and len(call.args) >= 2:
            src = E.full(st, call.args[1])
            st.mon = (st.mon or frozenset()) | frozenset([(E.full(st, call.args[0]), src)])
            return E.resume(st, call.ret, UNIT)
        return None

    def on_exit(self, E, st, value):
        v = E.full(st, value)
        if v[0] == 'agg' and v[2] == RES and v[3] == 0:
            self.okexits += 1
            doc = v[4][0]
            got = [s for d, s in (st.mon or ()) if d == doc]
            if not got:
                self.bad.add('the parsed document is returned without resolving captured text')
            elif ('sym', 'input') not in got:
                self.bad.add('the parsed document is resolved with a different text than the one parsed')
        elif v[0] == 'agg' and v[2] == RES:
            pass
        else:
            self.bad.add('unrecognised result %s' % E.show(v))
