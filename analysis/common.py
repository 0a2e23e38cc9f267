"""Shared infrastructure of the checks: reports, evidence, known findings, must-consume rules."""
import json, os, sys, time, traceback
import extract
from facts import Facts, norm_path
from engine import (Engine, Hooks, State, Limit, Call, cont, OPT, RES, CFL, COW, NONE, UNIT, TOP, contains, tdepth,
                    some, ok, err, cbool, cint, cstr, cchar, tup)

VERIF = extract.VERIF
_FACTS = {}


def load(config='default', serde=False):
    if (config, serde) not in _FACTS:
        d = extract.facts_dir(config)
        crates = [c for c in extract.EXPECT[config] if serde or c != 'serde_core']
        _FACTS[config, serde] = Facts(d, crates)
    return _FACTS[config, serde]


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = {}      # key -> (message, details)
        self.counts = {}
        self.rules = []
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.notes = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def oblige(self, good, key, msg, details=None):
        """One rule instance: records it as discharged or as a violation."""
        self.obligations += 1
        if good:
            self.discharged += 1
        else:
            self.violate(key, msg, details)
        return good

    def violate(self, key, msg, details=None):
        self.violations.setdefault(key, (msg, details or []))

    def floor(self, k, n):
        """Fail closed when fewer instances were analysed than were confirmed by hand."""
        self.count(k, 0)
        self.oblige(self.counts[k] >= n, 'floor:' + k,
                    'only %d instances of "%s" were found; at least %d are expected, so part of the rule no longer '
                    'matches the program (anchor missing)' % (self.counts[k], k, n))

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)


def known_findings():
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = {}
    if os.path.exists(p):
        with open(p) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                d = json.loads(line)
                if d.get('status') == 'known':
                    out[(d['property'], d['key'])] = d['what']
    return out


def line_of(F, fid):
    f = F.fns.get(fid)
    return '%s:%d' % (f['span'][0], f['span'][1]) if f else fid


# ------------------------------------------------------------------------------------------
# must-consume analysis
# ------------------------------------------------------------------------------------------
class MustHooks(Hooks):
    """Every constituent of an input that belongs to an event type must be passed to an event call.

    The monitor is the set of input parts consumed so far on every execution reaching the point;
    loops count as consuming a collection only when they run over all of it and consume every
    constituent of the element in each iteration."""

    klimit = 64

    def __init__(self, F, name):
        self.F, self.name = F, name
        self._has = {}
        self.exits = 0
        self.failures = {}
        self.root = None
        self.events = 0
        self.once = False

    # -- to override
    def event_of(self, E, st, call):
        """Returns the term consumed by this call, or None."""
        return None

    def event_result(self, E, st, call):
        return UNIT

    def is_event_type(self, ty):
        return False

    def skip_field(self, adt, variant, field):
        return False

    # -- type driven obligations
    def has(self, ty, stack=()):
        E = self.E
        ty = E.strip(ty)
        if ty is None:
            return False
        if ty in self._has:
            return self._has[ty]
        if ty in stack:
            return False
        if self.is_event_type(ty):
            self._has[ty] = True
            return True
        r = self.inner_has(ty, stack + (ty,))
        if not stack or r:
            self._has[ty] = r
        return r

    def inner_has(self, ty, stack=()):
        E = self.E
        e = E.elemty(ty)
        if e is not None:
            return self.has(e, stack)
        if ty[0] == 'tuple':
            return any(self.has(t, stack) for t in ty[1])
        if ty[0] == 'adt':
            a = self.F.adts.get(ty[1])
            if a:
                s = dict(zip(a['generics'], ty[2]))
                for v in a['variants']:
                    for f in v['fields']:
                        if not self.skip_field(a, v, f) and self.has(self.F.subst(f['ty'], s), stack):
                            return True
                return False
            return any(self.has(t, stack) for t in ty[2])
        return False

    def missing(self, st, t, ty, top=False, out=None):
        """List of unconsumed parts of t (a term of type ty)."""
        E = self.E
        if out is None:
            out = []
        ty = E.strip(ty)
        if not top:
            if not self.has(ty):
                return out
            if ('did', t) in st.mon:
                return out
            if self.is_event_type(ty):
                # consumed piecewise: all of its own constituents were consumed
                if self.any_inside(st, t) and self.inner_has(ty):
                    out += self.missing(st, t, ty, True)
                    return out
                out.append(t)
                return out
        if ty[0] == 'adt' and ty[1] == OPT:
            vs = E.variants(st, t, OPT)
            if 1 in vs:
                self.missing(st, ('fld', t, 1, 0), ty[2][0], False, out)
            return out
        e = E.elemty(ty)
        if e is not None:
            if ('all', t) in st.mon:
                return out
            if st.facts.get(('empty', t)) == ('in', frozenset([1])):
                return out
            out.append(('elem', t))
            return out
        if ty[0] == 'tuple':
            for i, x in enumerate(ty[1]):
                self.missing(st, ('fld', t, None, i), x, False, out)
            return out
        if ty[0] == 'adt':
            a = self.F.adts.get(ty[1])
            if not a:
                out.append(t)
                return out
            s = dict(zip(a['generics'], ty[2]))
            isenum = a['kind'] == 'Enum'
            vs = E.variants(st, t, ty[1]) if isenum else [0]
            for vi in vs:
                v = a['variants'][vi]
                for i, f in enumerate(v['fields']):
                    if self.skip_field(a, v, f):
                        continue
                    self.missing(st, ('fld', t, vi if isenum else None, i), self.F.subst(f['ty'], s), False, out)
        return out

    def any_inside(self, st, t):
        return any(m[0] in ('did', 'all') and contains(m[1], t) for m in st.mon)

    # -- engine callbacks
    def on_call(self, E, st, call):
        t = self.event_of(E, st, call)
        if t is None:
            return None
        self.events += 1
        terms = t if isinstance(t, list) else [t]
        for x in terms:
            if self.once and ('did', x) in st.mon:
                self.failures.setdefault(('twice', x), (E.show(x), E.trace(st)))
            if x[0] == 'elem' and ('all', x[1]) in st.mon and self.once:
                self.failures.setdefault(('twice', x), (E.show(x), E.trace(st)))
            st.mon = st.mon | frozenset([('did', x)])
            E.event(st, '%s:%s %s(%s)' % (E.F.fns[call.fid]['span'][0] if call.fid in E.F.fns else '?', call.line,
                                          call.np.split('::')[-1], E.show(x)))
        return E.resume(st, call.ret, self.event_result(E, st, call))

    def on_elem_start(self, E, st, src):
        e = ('elem', src)
        st.mon = frozenset(m for m in st.mon if not (m[0] in ('did', 'all', 'bad') and contains(m[1], e)))

    def on_elem_end(self, E, st, src):
        ty = E.typeof(('elem', src))
        if ty is None or not self.has(ty):
            return
        miss = self.missing(st, ('elem', src), ty)
        if miss:
            st.mon = st.mon | frozenset([('bad', src, miss[0])])

    def on_iter_end(self, E, st, src, flags):
        if flags == 'part' or src[0] == 'top':
            return
        if any(m[0] == 'bad' and m[1] == src for m in st.mon):
            return
        st.mon = st.mon | frozenset([('all', src)])

    def accept_exit(self, E, st, value):
        """False for exits on which nothing is owed (an error is returned)."""
        v = value
        if v[0] == 'agg' and v[1] == 'adt' and v[2] == RES and v[3] == 1:
            return False
        return True

    def on_exit(self, E, st, value):
        self.exits += 1
        if not self.accept_exit(E, st, value):
            return
        for t, ty, top in self.roots:
            for m in self.missing(st, t, ty, top):
                bad = [x for x in st.mon if x[0] == 'bad' and m == ('elem', x[1])]
                what = E.show(bad[0][2]) if bad else E.show(m)
                self.failures.setdefault(('miss', what), (what, E.trace(st), self.path_facts(E, st)))

    def path_facts(self, E, st):
        out = []
        for k, v in st.facts.items():
            if k[0] == 'discr' and v[0] == 'in':
                ty = E.typeof(k[1])
                names = []
                if ty and ty[0] == 'adt':
                    a = E.F.adt(ty[1])
                    names = [x['name'] for x in a['variants'] if int(x['discr']) in v[1]]
                out.append('%s is %s' % (E.show(k[1]), '|'.join(names) or sorted(v[1])))
        return sorted(out)[:12]

    def analyse(self, fid, args, roots, subst=None):
        E = Engine(self.F, self)
        self.E = E
        self.roots = roots
        E.symty.update(self.symty)
        E.run(fid, args, subst, frozenset())
        return E


def fn_params(F, fid, subst=None):
    f = F.fns[fid]
    return [F.subst(t, subst or {}) for t in f['lty'][1:f['argc'] + 1]]


def must_fn(rep, F, hooks, fid, rootparams, subst=None, what='', key=None):
    """Analyses one function; rootparams: indices of parameters that must be consumed."""
    ptys = fn_params(F, fid, subst)
    names = param_names(F, fid)
    hooks.symty = {}
    args = []
    for i, t in enumerate(ptys):
        n = names.get(i + 1, 'arg%d' % i)
        hooks.symty[n] = t
        args.append(('sym', n))
    hooks.failures = {}
    hooks.exits = 0
    hooks.E = Engine(F, hooks)
    hooks.E.symty.update(hooks.symty)
    roots = [(args[i], ptys[i], True) for i in rootparams]
    nm = F.fnname(fid)
    key = key or nm
    try:
        E = hooks.analyse(fid, args, roots, subst)
    except Limit as e:
        rep.oblige(False, '%s:limit' % key, 'analysis limit reached in %s: %s' % (nm, e))
        return None
    rep.count('functions analysed')
    rep.count('program points x states', E.nstates)
    rep.oblige(hooks.exits > 0, '%s:noexit' % key, 'no return of %s (%s) is reachable in the analysis' % (nm, line_of(F, fid)))
    if not hooks.failures:
        rep.obligations += 1
        rep.discharged += 1
    for (kind, k), d in sorted(hooks.failures.items(), key=repr):
        if kind == 'miss':
            rep.oblige(False, '%s:miss:%s' % (key, d[0]),
                       '%s (%s): %s is never %s on a path%s' % (
                           nm, line_of(F, fid), d[0], what,
                           (' where ' + ', '.join(d[2])) if d[2] else ''), d[1])
        elif kind == 'twice':
            rep.oblige(False, '%s:twice:%s' % (key, d[0]),
                       '%s (%s): %s is %s more than once on a path' % (nm, line_of(F, fid), d[0], what), d[1])
        else:
            rep.oblige(False, '%s:%s:%s' % (key, kind, d[0]),
                       '%s (%s): %s' % (nm, line_of(F, fid), d[0]), d[1])
    return E


def param_names(F, fid):
    f = F.fns[fid]
    out = {}
    for n, pl in f['names']:
        if len(pl) == 1 and 1 <= pl[0] <= f['argc'] and pl[0] not in out:
            out[pl[0]] = n
    return out


# ------------------------------------------------------------------------------------------
def finish(rep, level, technique, wall, explanation, trusted, assumptions=None):
    kf = known_findings()
    new, known = [], []
    for k in sorted(rep.violations):
        if (rep.pid, k) in kf:
            known.append(k)
        else:
            new.append(k)
    ev = {
        'property': rep.pid, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': level, 'wall_s': round(wall, 2),
        'coverage': {
            'obligations': rep.obligations, 'discharged': rep.discharged,
            'checker_cmd': '/verif/check.sh %s %s' % (rep.pid, rep.tier),
            'trusted_base': trusted,
            'explanation': explanation,
            'rules': rep.rules, 'counts': rep.counts, 'samples': rep.samples,
            'technique': technique, 'notes': rep.notes,
        },
        'assumptions': assumptions or [],
        'violations': [{'key': k, 'message': rep.violations[k][0]} for k in sorted(rep.violations)],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', rep.pid + '.json')
    with open(p, 'w') as fh:
        json.dump(ev, fh, indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (rep.pid, kf[(rep.pid, k)]))
    if new:
        rp = os.path.join(VERIF, 'evidence', rep.pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for k in new:
                m, d = rep.violations[k]
                fh.write('%s\n  key: %s\n' % (m, k))
                for x in d:
                    fh.write('    %s\n' % (x,))
        for k in new[:20]:
            print('  ' + rep.violations[k][0])
            for x in rep.violations[k][1][:10]:
                print('      ' + str(x))
        print('VIOLATION property=%s replay=%s' % (rep.pid, rp))
        return 1
    print('OK property=%s obligations=%d discharged=%d counts=%s' % (
        rep.pid, rep.obligations, rep.discharged, json.dumps(rep.counts)))
    return 0


# ---------------------------------------------------------------- vectors of known length
class Seqs(Hooks):
    """Vectors and maps are tracked element by element; texts as sequences of parts."""

    def seqs(self, E, st, c, R):
        """Vectors are tracked element by element."""
        np, a = c.np, c.args
        arr = lambda xs: ('agg', 'array', None, None, tuple(xs))
        n = np.split('::')[-1]
        isvec = np.startswith(('vec::Vec::', 'vecmap::VecMap::', 'indexmap::IndexMap::'))
        if isvec and n in ('new', 'with_capacity'):
            return R(arr(()))
        if np == 'option::Option::unwrap_or_default' and c.targs and c.targs[0][0] == 'adt' and \
                c.targs[0][1].split('::')[-1] in ('String', 'Cow', 'InternalString'):
            x = E.deref(st, a[0])
            if x[0] == 'agg':
                return R(x[4][0] if x[3] == 1 else cstr(''))
        if np == 'default::Default::default' and c.targs and c.targs[0][0] == 'adt':
            t = c.targs[0][1].split('::')[-1]
            if t in ('Vec', 'VecMap', 'IndexMap'):
                return R(arr(()))
            if t == 'HashSet':
                return R(('sym', 'set'))
            if t == 'RefCell':
                d = Call()
                for s in Call.__slots__:
                    if hasattr(c, s):
                        setattr(d, s, getattr(c, s))
                d.targs = (c.targs[0][2][0],)
                return E.call(st, d)
        if isvec and a:
            v = E.deref(st, a[0])
            if v[0] == 'agg' and v[1] == 'array':
                xs = v[4]
                if n == 'push':
                    E.store(st, a[0], arr(xs + (E.full(st, a[1]),)))
                    return R(UNIT)
                if n == 'insert' and np.startswith('vec::'):
                    i = E.deref(st, a[1])[2]
                    E.store(st, a[0], arr(xs[:i] + (E.full(st, a[2]),) + xs[i:]))
                    return R(UNIT)
                if n == 'insert':
                    E.store(st, a[0], arr(xs + (tup(E.full(st, a[1]), E.full(st, a[2])),)))
                    return R(NONE)
                if n == 'pop':
                    if not xs:
                        return R(NONE)
                    E.store(st, a[0], arr(xs[:-1]))
                    return R(some(xs[-1]))
                if n == 'len':
                    return R(cint(len(xs)))
                if n == 'is_empty':
                    return R(cbool(not xs))
                if n in ('reserve',):
                    return R(UNIT)
        if np in ('slice::impl::last_mut', 'slice::impl::first_mut', 'slice::impl::last', 'slice::impl::first',
                  'slice::impl::get', 'slice::impl::len', 'slice::impl::is_empty', 'vec::Vec::get'):
            v = E.deref(st, a[0])
            if v[0] == 'agg' and v[1] == 'array':
                xs = v[4]
                if n == 'len':
                    return R(cint(len(xs)))
                if n == 'is_empty':
                    return R(cbool(not xs))
                i = 0 if n.startswith('first') else len(xs) - 1
                if n == 'get':
                    k = E.deref(st, a[1])
                    if k[0] != 'const':
                        return None
                    i = k[2]
                if not 0 <= i < len(xs):
                    return R(NONE)
                if a[0][0] == 'slot' and n.endswith('mut'):
                    return R(some(('slot', a[0][1], a[0][2], a[0][3] + ((None, i),))))
                return R(some(xs[i]))
        if np == 'string::String::push_str' and a[0][0] == 'slot':
            x, y = E.full(st, a[0]), E.full(st, a[1])
            E.store(st, a[0], ('toks', tuple(self.parts(x) + self.parts(y))))
            return R(UNIT)
        if np == 'clone::Clone::clone' and c.targs and c.targs[0][0] == 'adt' and c.targs[0][1].endswith('::RefCell'):
            d = Call()
            for s in Call.__slots__:
                if hasattr(c, s):
                    setattr(d, s, getattr(c, s))
            d.targs = (c.targs[0][2][0],)
            return E.call(st, d)
        return None

    def parts(self, x):
        if x[0] == 'toks':
            return x[1]
        if x[0] == 'const':
            return (('lit', x[2]),)
        return (('val', x),)


# ---------------------------------------------------------------- format strings
def fmt_args(E, st, a):
    t, xs = E.full(st, a[0]), E.full(st, a[1])
    if t[0] != 'const' or t[1] not in ('mem', 'bytes') or xs[0] != 'agg':
        return TOP
    b = bytes.fromhex(t[2]) if isinstance(t[2], str) else bytes(t[2])
    i, out, arg = 0, [], 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(('lit', b[i:i + n].decode()))
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(('lit', b[i + 2:i + 2 + k].decode()))
            i += 2 + k
        else:
            opts = []
            for bit, w in ((1, 4), (2, 2), (4, 2), (8, 2)):
                if n & bit:
                    v = int.from_bytes(b[i:i + w], 'little')
                    i += w
                    if bit == 8:
                        arg = v
                    else:
                        opts.append((bit, v))
            x = xs[4][arg]
            arg += 1
            if x[0] != 'fmtarg':
                return TOP
            out.append(('arg', x[2], x[1], tuple(opts), x[3] if len(x) > 3 else None))
    return ('fmtargs', tuple(out))


def fmt_pieces(fa):
    if fa[0] == 'const' and fa[1] == 'str':
        return [('lit', fa[2])]
    if fa[0] == 'fmtargs':
        return list(fa[1])
    return None


# ---------------------------------------------------------------- written output
def merge(ts):
    """Adjacent literals are one literal."""
    out = []
    for t in ts:
        if t == ('lit', ''):
            continue
        if out and t[0] == 'lit' and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + t[1])
        else:
            out.append(t)
    return tuple(out)


class Out(Seqs):
    """Everything written to the output (a formatter, writer or serializer called `out`) is collected, in order, in the
    monitor state."""
    exits = None

    def __init__(self, call=None, **kw):
        self.exits, self.ucall, self.opq = [], call, {}
        for k, v in kw.items():
            setattr(self, k, v)

    def is_sink(self, E, st, x):
        return contains(x, ('sym', 'out'))

    def emit(self, E, st, dst, toks, ret):
        d = E.deref(st, dst)
        if self.is_sink(E, st, d):
            st.mon = merge(st.mon + tuple(toks))
            return E.resume(st, ret, ok(UNIT))
        slot = dst
        while slot[0] == 'slot':
            v = E.load(st, slot)
            if v[0] != 'slot':
                break
            slot = v
        if slot[0] == 'slot' and (d[0] in ('toks', 'const') or d == TOP):
            if d == TOP:
                return None
            E.store(st, slot, ('toks', merge(self.parts(d) + tuple(toks))))
            return E.resume(st, ret, ok(UNIT))
        return None

    def toks_of(self, E, st, x):
        x = E.full(st, x)
        while x[0] == 'agg' and x[1] == 'adt' and (x[2] == COW or x[2].split('::')[-1] in ('InternalString', 'String')) and x[4]:
            x = x[4][0]
        if x[0] == 'const':
            s = str(x[2])
            return (('lit', s.lower() if x[1] == 'bool' else s),)
        if x[0] == 'toks':
            return x[1]
        return (('val', x),)

    def on_call(self, E, st, c):
        if self.ucall:
            r = self.ucall(E, st, c)
            if r is not None:
                return r
        np, a = c.np, c.args
        R = lambda v: E.resume(st, c.ret, v)
        n = np.split('::')[-1]
        if np in ('fmt::Write::write_str', 'fmt::Write::write_char', 'fmt::Formatter::write_str', 'fmt::Formatter::write_char',
                  'fmt::Formatter::pad', 'io::Write::write_all'):
            return self.emit(E, st, a[0], self.toks_of(E, st, a[1]), c.ret)
        if np in ('fmt::Write::write_fmt', 'fmt::Formatter::write_fmt', 'io::Write::write_fmt'):
            p = fmt_pieces(E.full(st, a[1]))
            return None if p is None else self.pieces(E, st, a[0], tuple(p), c.ret)
        if np in ('fmt::Display::fmt',) and E.target(st, c) is None:
            t = E.strip(c.targs[0]) if c.targs else None
            if t and (t[0] == 'prim' or t[0] == 'adt' and t[1].split('::')[-1] in ('String', 'Cow', 'InternalString')):
                return self.emit(E, st, a[1], self.toks_of(E, st, a[0]), c.ret)
        if np == 'fmt::Arguments::new':
            return R(fmt_args(E, st, a))
        if np.startswith('fmt::rt::Argument::new_'):
            return R(('fmtarg', np[len('fmt::rt::Argument::new_'):], E.full(st, a[0]), c.targs[0] if c.targs else None))
        if np == 'string::ToString::to_string' and c.targs:
            t = E.strip(c.targs[0])
            r = self.render(E, st, E.full(st, a[0]), t, c.ret)
            if r is not None:
                return r
            if not (t == ('prim', 'str') or t[0] == 'adt' and t[1].split('::')[-1] in ('String', 'Cow')):
                x = E.full(st, a[0])
                return R(cstr(str(x[2]).lower() if x[1] == 'bool' else str(x[2])) if x[0] == 'const' else ('toks', (('val', x),)))
        if np == 'alloc::fmt::format' or np == 'fmt::format' or np.endswith('fmt::format'):
            p = fmt_pieces(E.full(st, a[0]))
            if p is not None:
                st.env[self.tmp(st)] = ('toks', ())
                k = ('tmp', self.ntmp(st) - 1)
                return self.pieces(E, st, ('slot',) + k + ((),), tuple(p), ('k', 'out_render', k, c.ret))
        return self.seqs(E, st, c, R)

    def ntmp(self, st):
        n = 0
        while ('tmp', n) in st.env:
            n += 1
        return n

    def tmp(self, st):
        return ('tmp', self.ntmp(st))

    def render(self, E, st, x, ty, ret):
        """The text a workspace Display implementation gives."""
        k = self.tmp(st)
        s = st.copy()
        s.env[k] = ('toks', ())
        return self.display(E, s, x, ty, ('slot',) + k + ((),), ('k', 'out_render', k, ret))

    def display(self, E, st, x, ty, dst, ret):
        """A workspace Display implementation is interpreted."""
        ty = E.strip(ty) if ty else None
        if ty is None and x[0] == 'agg' and x[1] == 'adt':
            ty = ('adt', x[2], ())
        if ty is None or ty[0] != 'adt' or not self.F.find_impl('core::fmt::Display', ty, (ty,)):
            return None
        c = Call()
        c.id, c.path, c.np = 'core::fmt::Display::fmt', 'std::fmt::Display::fmt', 'fmt::Display::fmt'
        c.targs, c.trait, c.res = (ty,), 'core::fmt::Display', None
        c.args, c.ret, c.line, c.fid, c.argtys, c.site = [x, dst], ret, 0, None, (None, None), ('fmt',)
        return E.call(st, c)

    def pieces(self, E, st, dst, ps, ret):
        if not ps:
            return E.resume(st, ret, ok(UNIT))
        p, rest = ps[0], tuple(ps[1:])
        K = ('k', 'out_pieces', (dst, rest), ret)
        if p[0] == 'lit':
            return self.emit(E, st, dst, (p,), K)
        if p[2] == 'display':
            x = E.full(st, p[1])
            r = self.display(E, st, x, p[4] if len(p) > 4 else None, dst, K)
            if r is not None:
                return r
            return self.emit(E, st, dst, self.toks_of(E, st, x), K)
        return self.emit(E, st, dst, (('dbg', E.full(st, p[1])),), K)

    def call_opaque(self, E, st, c):
        self.opq[c.np] = self.opq.get(c.np, 0) + 1

    def on_exit(self, E, st, value):
        self.exits.append((st, E.full(st, value)))


@cont('out_render')
def k_out_render(E, st, k, ret, v):
    x = E.full(st, st.env.pop(k))
    if x == ('toks', ()):
        x = cstr('')
    elif x[0] == 'toks' and len(x[1]) == 1 and x[1][0][0] == 'lit':
        x = cstr(x[1][0][1])
    return E.resume(st, ret, x)


@cont('out_pieces')
def k_out_pieces(E, st, d, ret, v):
    v = E.deref(st, v)
    if v[0] == 'agg' and v[2] == RES and v[3] == 1:
        return E.resume(st, ret, v)
    return E.H.pieces(E, st, d[0], d[1], ret)


def outputs(F, fid, args, call=None, subst=None, facts=None, setup=None, hooks=None, **kw):
    """[(state with .mon = written tokens, result)], engine."""
    h = (hooks or Out)(call, F=F, **kw)
    E = Engine(F, h)
    if setup:
        args = setup(E) or args
    E.run(fid, args, subst, (), facts)
    return h.exits, E


# ---------------------------------------------------------------- small evaluations
class Collect(Hooks):
    """Collects the results of a function; `call` may give a model for a call."""

    def __init__(self, call=None, **kw):
        self.exits, self.call, self.opq = [], call, {}
        for k, v in kw.items():
            setattr(self, k, v)

    def on_call(self, E, st, c):
        return self.call(E, st, c) if self.call else None

    def call_opaque(self, E, st, c):
        self.opq[c.np] = self.opq.get(c.np, 0) + 1

    def on_exit(self, E, st, value):
        self.exits.append((st, E.full(st, value)))


def results(F, fid, args, call=None, subst=None, facts=None, setup=None, mon=None, **kw):
    """Results of a function on symbolic or constant arguments: [(state, value)], engine."""
    h = Collect(call, **kw)
    E = Engine(F, h)
    if setup:
        args = setup(E) or args
    E.run(fid, args, subst, mon, facts)
    return h.exits, E


def find_fn(F, crate, name):
    """Function by its readable name, e.g. 'BinaryOperator::precedence'."""
    for fid in F.fns:
        if fid.startswith(crate + '::') and F.fnname(fid) == name:
            return fid
    return None


def impl_fn(F, trait, ty, method, targs=None):
    """Method of a trait implementation; trait by its last path segments."""
    for im in F.impls:
        if im['traitid'] and (im['traitid'] == trait or im['traitid'].endswith('::' + trait)) and im['selfty'] == ty \
                and (targs is None or tuple(im['targty'][1:]) == tuple(targs)):
            for it in im['items']:
                if it['id'].split('::')[-1] == method:
                    return it['id']
    return None


def adt_named(F, crate, name):
    for a in F.adts.values():
        if a['crate'] == crate and a['id'].split('::')[-1] == name:
            return a
    return None


def variant(F, adt, name, *fields):
    return ('agg', 'adt', adt['id'], F.vindex(adt['id'], name), tuple(fields))


def struct(F, adt, **vals):
    fs = adt['variants'][0]['fields']
    return ('agg', 'adt', adt['id'], 0, tuple(vals.get(f['name'], ('sym', 'f_' + f['name'])) for f in fs))
