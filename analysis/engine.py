"""Abstract interpreter over the MIR facts.

The analysis is a worklist dataflow fixpoint over (call stack, block) program points.  Abstract
states are partitioned by the known variants of input terms and by the state of a monitor (a
typestate automaton or a must-have-happened set supplied by the check).  Values are provenance
terms: which part of which input a value was read from, or how it was built.  Calls of
workspace functions are interpreted in place (context sensitive), foreign functions have models
or are opaque.  No code of the analysed program is executed.
"""
import sys
from facts import norm_path

TOP = ('top',)
UNIT = ('agg', 'tuple', None, None, ())
OPT = 'core::option::Option'
RES = 'core::result::Result'
CFL = 'core::ops::control_flow::ControlFlow'
COW = 'alloc::borrow::Cow'
NONE = ('agg', 'adt', OPT, 0, ())
MAXDEPTH = 14


def some(x):
    return ('agg', 'adt', OPT, 1, (x,))


def ok(x):
    return ('agg', 'adt', RES, 0, (x,))


def err(x):
    return ('agg', 'adt', RES, 1, (x,))


def cbool(b):
    return ('const', 'bool', bool(b))


def cint(n):
    return ('const', 'int', n)


def cstr(s):
    return ('const', 'str', s)


def cchar(s):
    return ('const', 'char', s)


BITS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}


def wrap(n, ty):
    """The integer n as a value of type ty."""
    b = BITS.get(ty[1]) if ty and ty[0] == 'prim' else None
    if b is None or not isinstance(n, int):
        return n
    n &= (1 << b) - 1
    return n - (1 << b) if ty[1][0] == 'i' and n >> (b - 1) else n


def tup(*xs):
    return ('agg', 'tuple', None, None, tuple(xs))


def is_agg(v):
    return v[0] == 'agg'


def tdepth(t, lim=MAXDEPTH + 2):
    if not isinstance(t, tuple) or lim <= 0:
        return 0
    m = 0
    for x in t:
        if isinstance(x, tuple):
            m = max(m, tdepth(x, lim - 1))
    return 1 + m


def contains(t, sub):
    if t == sub:
        return True
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)) and contains(x, sub):
                return True
    return False


class State:
    __slots__ = ('stack', 'bb', 'env', 'mem', 'facts', 'mon', 'trace', 'si')

    def __init__(self):
        self.stack, self.bb, self.env, self.mem, self.facts = (), 0, {}, {}, {}
        self.mon, self.trace, self.si = None, None, 0

    def copy(self):
        s = State()
        s.stack, s.bb = self.stack, self.bb
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), dict(self.facts)
        s.mon, s.trace = self.mon, self.trace
        return s

    @property
    def d(self):
        return len(self.stack) - 1


class Frame(tuple):
    """(fn id, substs tuple, ret, call line)"""
    __slots__ = ()
    fid = property(lambda s: s[0])
    sub = property(lambda s: s[1])
    ret = property(lambda s: s[2])
    line = property(lambda s: s[3])


class Call:
    __slots__ = ('id', 'path', 'np', 'targs', 'trait', 'res', 'args', 'ret', 'line', 'fid', 'argtys', 'st', 'site')


class Limit(Exception):
    pass


CONT = {}
MODELS = {}


def cont(name):
    def deco(f):
        CONT[name] = f
        return f
    return deco


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


@cont('dropped')
def k_dropped(E, st, d, ret, v):
    st.bb = d[0]
    return [st]


class Hooks:
    """Override in checks."""
    max_inline = 30
    max_states = 60000
    klimit = 48

    def on_call(self, E, st, call):
        return None

    def inline_ok(self, E, st, fid, call):
        return True

    def on_exit(self, E, st, value):
        pass

    def on_write(self, E, st, term, value):
        pass

    def on_elem_start(self, E, st, src):
        pass

    def on_elem_end(self, E, st, src):
        pass

    def on_iter_end(self, E, st, src, flags):
        pass

    def on_assume(self, E, st, term):
        pass

    def on_diverge(self, E, st, why):
        pass

    def call_opaque(self, E, st, call):
        pass


class Engine:
    statics = {}
    def __init__(self, F, hooks):
        self.F, self.H = F, hooks
        self.work = []
        self.visited = set()
        self.counts = {}
        self.widened = {}
        self.nstates = 0
        self.nwiden = 0
        self.inlined = set()
        self.opaque = {}
        self.entry = None
        self.symty = {}
        self._typecache = {}
        self._ids, self._vals = {}, {}

    # ------------------------------------------------------------------ running
    def run(self, fid, args, subst=None, mon=None, facts=None):
        F = self.F
        st = State()
        self.entry = fid
        st.mon = mon
        if facts:
            st.facts.update(facts)
        sub = tuple(sorted((subst or {}).items()))
        st.stack = (Frame((fid, sub, ('exit',), F.fns[fid]['span'][1])),)
        self.inlined.add(fid)
        for i, a in enumerate(args):
            st.env[(0, i + 1)] = a
        st.env.update(getattr(self, 'env0', None) or {})
        self.push(st)
        while self.work:
            s = self.work.pop()
            self.nstates += 1
            if self.nstates > self.H.max_states:
                raise Limit('state limit %d exceeded in %s' % (self.H.max_states, F.fnname(fid)))
            for n in self.step(s):
                self.push(n)

    def ix(self, v):
        """A number for a value: equal values have equal numbers."""
        r = self._ids.get(id(v))
        if r is None:
            r = self._ids[id(v)] = (self._vals.setdefault(v, len(self._vals)), v)
        return r[0]

    def push(self, st):
        if not st.stack:
            return
        self.prune(st)
        if st.bb not in self.F.joins(self.F.fns[st.stack[-1].fid]):
            self.work.append(st)
            return
        ix = self.ix
        pc = (ix(st.stack), st.bb)
        key = (pc, frozenset([(k, ix(v)) for k, v in st.env.items()]), frozenset([(ix(k), ix(v)) for k, v in st.mem.items()]),
               frozenset([(ix(k), ix(v)) for k, v in st.facts.items()]), ix(st.mon))
        if key in self.visited:
            return
        n = self.counts.get(pc, 0) + 1
        self.counts[pc] = n
        if n > self.H.klimit:
            # widen: merge with what reached this point under the same monitor state
            wk = (pc, key[4])
            old = self.widened.get(wk)
            self.nwiden += 1
            if old is not None:
                env, mem, facts = old
                env = {k: (v if st.env.get(k) == v else TOP) for k, v in env.items() if k in st.env}
                mem = {k: (v if st.mem.get(k) == v else TOP) for k, v in mem.items()}
                for k in st.mem:
                    if k not in mem:
                        mem[k] = TOP
                facts = {k: v for k, v in facts.items() if st.facts.get(k) == v}
                if (env, mem, facts) == old:
                    return
                st.env, st.mem, st.facts = dict(env), dict(mem), dict(facts)
            else:
                env, mem, facts = dict(st.env), dict(st.mem), dict(st.facts)
            self.widened[wk] = (env, mem, facts)
        self.visited.add(key)
        self.work.append(st)

    def prune(self, st):
        # liveness in the top frame; lower frames: live at their continuation (approximated by
        # everything live-in at the successor, computed when the frame was suspended)
        d = st.d
        fr = st.stack[d]
        live, borrowed, _ = self.F.liveness(self.F.fns[fr.fid])
        l = live[st.bb]
        # collect targets of slot pointers anywhere
        for k in list(st.env):
            if k[0] == d and k[1] not in l and k[1] not in borrowed:
                del st.env[k]

    # ------------------------------------------------------------------ places
    def fr(self, st):
        return st.stack[-1]

    def fn(self, st):
        return self.F.fns[st.stack[-1].fid]

    def get(self, st, d, l):
        return st.env.get((d, l), ('undef',))

    def fieldof(self, st, v, vi, i):
        if v[0] == 'agg':
            if v[1] == 'adt' and vi is not None and v[3] is not None and v[3] != vi:
                return TOP
            if i < len(v[4]):
                return v[4][i]
            return TOP
        if v[0] == 'clos':
            return v[3][i] if i < len(v[3]) else TOP
        if v[0] in ('top', 'undef'):
            return TOP
        t = ('fld', v, vi, i)
        if st.mem:
            if t in st.mem:
                return st.mem[t]
        if tdepth(t) > MAXDEPTH:
            return TOP
        return t

    def elemof(self, st, v, idx):
        if v[0] == 'agg' and v[1] == 'array':
            if idx is not None and idx[0] == 'const' and idx[2] < len(v[4]):
                return v[4][idx[2]]
            s = set(v[4])
            return s.pop() if len(s) == 1 else TOP
        if v[0] == 'coll':
            return next(iter(v[1])) if len(v[1]) == 1 else TOP
        if v[0] in ('top', 'undef'):
            return TOP
        if idx is not None and idx[0] == 'const':
            return ('idx', v, idx[2])
        if idx is not None and idx[0] != 'pos' and not (idx[0] == 'iterix' and idx[1] == v):
            return ('at', v, idx)
        return ('elem', v)

    def load(self, st, loc):
        """loc: ('slot', d, l, proj) or ('term', t)"""
        if loc[0] == 'term':
            t = loc[1]
            if st.mem and t in st.mem:
                return st.mem[t]
            return t
        _, d, l, proj = loc
        v = self.get(st, d, l)
        for p in proj:
            v = self.fieldof(st, v, p[0], p[1])
        return v

    def resolve(self, st, place):
        d = st.d
        loc = ('slot', d, place[0], ())
        vi = None
        for p in place[1:]:
            if p == 'b':
                continue
            if p == '*':
                v = self.load(st, loc)
                if v[0] == 'slot':
                    loc = v
                elif v[0] in ('agg', 'clos', 'const', 'undef', 'coll', 'it'):
                    pass  # a box, or a shared reference represented by its referent
                else:
                    loc = ('term', v)
                vi = None
                continue
            k = p[0]
            if k == 'd':
                vi = p[1]
                continue
            if k == 'f':
                if loc[0] == 'slot':
                    v = self.load(st, loc)
                    n = 0
                    while v[0] == 'slot' and n < 6:     # smart pointers are represented by what they point to
                        loc, n = v, n + 1
                        v = self.load(st, loc)
                    if v[0] in ('agg', 'clos', 'undef', 'top', 'part'):
                        loc = ('slot', loc[1], loc[2], loc[3] + ((vi, p[1]),))
                    else:
                        loc = ('term', ('fld', v, vi, p[1]) if tdepth(v) < MAXDEPTH else TOP)
                else:
                    v = self.load(st, loc)
                    if v[0] in ('agg', 'clos'):
                        loc = ('term', self.fieldof(st, v, vi, p[1]))
                    elif v[0] == 'slot':
                        loc = v
                    else:
                        loc = ('term', ('fld', v, vi, p[1]) if v[0] != 'top' and tdepth(v) < MAXDEPTH else TOP)
                vi = None
                continue
            v = self.load(st, loc)
            if k == 'i':
                loc = ('term', self.elemof(st, v, self.get(st, d, p[1])))
            elif k == 'c':
                if p[3]:
                    loc = ('term', ('idx', v, -p[1]) if v[0] not in ('agg', 'top', 'coll') else TOP)
                else:
                    loc = ('term', self.elemof(st, v, cint(p[1])))
            elif k == 's':
                loc = ('term', ('sub', v, p[1], p[2]) if v[0] != 'top' else TOP)
            else:
                loc = ('term', TOP)
            vi = None
        return loc

    def read(self, st, place):
        return self.load(st, self.resolve(st, place))

    def setpath(self, v, proj, val):
        if not proj:
            return val
        vi, i = proj[0]
        if v[0] == 'agg':
            f = list(v[4])
            while len(f) <= i:
                f.append(('undef',))
            f[i] = self.setpath(f[i], proj[1:], val)
            return v[:4] + (tuple(f),)
        if v[0] == 'clos':
            f = list(v[3])
            f[i] = self.setpath(f[i], proj[1:], val)
            return v[:3] + (tuple(f),)
        if v[0] == 'undef':
            f = [('undef',)] * (i + 1)
            f[i] = self.setpath(('undef',), proj[1:], val)
            return ('agg', 'tuple', None, vi, tuple(f))
        return TOP

    def store(self, st, loc, val):
        if tdepth(val) > MAXDEPTH + 6:
            val = TOP
        if loc[0] == 'slot':
            _, d, l, proj = loc
            st.env[(d, l)] = self.setpath(self.get(st, d, l), proj, val)
        else:
            t = loc[1]
            self.invalidate(st, t)
            if t[0] not in ('top',):
                st.mem[t] = val
            self.H.on_write(self, st, t, val)

    def write(self, st, place, val):
        if len(place) == 1:
            if tdepth(val) > MAXDEPTH + 6:
                val = TOP
            st.env[(st.d, place[0])] = val
        else:
            self.store(st, self.resolve(st, place), val)

    def invalidate(self, st, t, strict=False):
        """Forget facts and overrides about t and everything inside it."""
        for k in list(st.mem):
            if (k != t or not strict) and contains(k, t):
                del st.mem[k]
        for k in list(st.facts):
            if contains(k, t):
                del st.facts[k]

    def deref(self, st, v):
        """Value behind a pointer value."""
        n = 0
        while v[0] == 'slot' and n < 10:
            v = self.load(st, v)
            n += 1
        return v

    def full(self, st, v, depth=0):
        """Replaces slot pointers inside v by the values they point at."""
        if depth > 12:
            return v
        if v[0] == 'slot':
            return self.full(st, self.load(st, v), depth + 1)
        if v[0] == 'agg':
            return v[:4] + (tuple(self.full(st, x, depth + 1) for x in v[4]),)
        if v[0] in ('fld', 'elem', 'idx') and st.mem and v in st.mem:
            return self.full(st, st.mem[v], depth + 1)
        return v

    # ------------------------------------------------------------------ operands
    def const(self, st, k, promoted_of=None):
        F = self.F
        fn = promoted_of or self.fn(st)
        t = fn['T'][k['t']]
        if 'str' in k:
            return cstr(k['str'])
        if 'int' in k:
            return cint(int(k['int']))
        if 'bool' in k:
            return cbool(k['bool'])
        if 'char' in k:
            return cchar(k['char'])
        if 'float' in k:
            return ('const', 'float', k['float'])
        tt = t
        if tt[0] == 'fndef':
            a = F.subst(t, dict(self.fr(st).sub)) if st is not None else t
            return ('fn', a[1], a[2], a[3], a[4])
        if 'promoted' in k:
            root = F.fns.get(k['uneval']) or F.consts.get(k['uneval'])
            if root is not None and k['promoted'] < len(root['promoted']):
                return self.eval_promoted(st, root, root['promoted'][k['promoted']])
            return TOP
        if 'zst' in k or k.get('indirect'):
            if tt[0] == 'closure':
                return ('clos', tt[1], self.fr(st).sub if st is not None else (), ())
            if tt == ('tuple', ()):
                return UNIT
            if tt[0] == 'adt' and 'zst' in k:
                if tt[1] in (OPT,):
                    return NONE
                return ('agg', 'adt', tt[1], 0, ())
        if 'bits' in k:
            # a scalar constant of an enum type
            tt2 = tt
            if tt2[0] == 'adt':
                a = F.adt(tt2[1])
                if a and len(a['variants']) > 1:
                    for i, v in enumerate(a['variants']):
                        if v['discr'] == k['bits'] and not v['fields']:
                            return ('agg', 'adt', tt2[1], i, ())
            return ('const', 'bits', k['bits'], tt)
        if 'bytes' in k:
            return ('const', 'bytes', k['bytes'])
        if 'mem' in k:
            return ('const', 'mem', k['mem'], tuple((a, b) for a, b in k.get('rel', [])), tt)
        if 'uneval' in k:
            c = F.consts.get(k['uneval'])
            if c is not None:
                v = self.eval_promoted(st, c, c)
                if v[0] != 'top':
                    return v
            return ('constref', k['uneval'])
        if 'static' in k:
            c = F.consts.get(k['static'])
            if c is not None:
                v = self.statics.get(k['static']) if k['static'] in self.statics else self.eval_promoted(None, c, c)
                self.statics[k['static']] = v
                if v[0] == 'agg' or v[0] == 'const':
                    return v
            return ('static', k['static'])
        if 'fnptr' in k:
            return ('fn', k['fnptr'], (), k['fnptr'], None)
        return ('constref', str(sorted(k.items())))

    def eval_promoted(self, st, owner, body):
        env = {}
        body_fn = {'T': owner['T']}

        def rdplace(p):
            v = env.get(p[0], TOP)
            vi = None
            for q in p[1:]:
                if q in ('*', 'b'):
                    continue
                if q[0] == 'd':
                    vi = q[1]
                elif q[0] == 'f':
                    v = self.fieldof(State(), v, vi, q[1])
                    vi = None
                else:
                    return TOP
            return v

        def op(o):
            if o[0] == 'k':
                return self.const(None if st is None else st, o[1], body_fn)
            return rdplace(o[1])
        bb = 0
        for _ in range(200):
            b = body['blocks'][bb]
            for s in b['s']:
                if s[0] != '=' or len(s[1]) != 1:
                    return TOP
                r = s[2]
                if r[0] == 'use':
                    v = op(r[1])
                elif r[0] == 'ref':
                    v = rdplace(r[2])
                elif r[0] == 'rawptr':
                    v = rdplace(r[1])
                elif r[0] == 'cast':
                    v = op(r[2])
                elif r[0] == 'agg':
                    v = self.mkagg(None, owner, r[1], [op(o) for o in r[2]])
                else:
                    v = TOP
                env[s[1][0]] = v
            t = b['t']
            if t[0] == 'return':
                return env.get(0, TOP)
            if t[0] == 'goto':
                bb = t[1]
            elif t[0] == 'call' and 'id' in t[1] and t[4] is not None:
                env[t[3][0]] = ('op', norm_path(t[1]['path']), None) + tuple(op(a) for a in t[2])
                bb = t[4]
            else:
                return TOP
        return TOP

    def operand(self, st, o):
        if o[0] == 'k':
            return self.const(st, o[1])
        if o[0] in 'cm':
            return self.read(st, o[1])
        return TOP

    def mkagg(self, st, fn, k, ops):
        if k[0] == 'adt':
            vi = k[3]
            a = self.F.adt(k[1])
            return ('agg', 'adt', k[1], vi, tuple(ops))
        if k[0] == 'tuple':
            return ('agg', 'tuple', None, None, tuple(ops))
        if k[0] == 'array':
            return ('agg', 'array', None, None, tuple(ops))
        if k[0] == 'closure':
            return ('clos', k[1], self.fr(st).sub if st is not None else (), tuple(ops))
        return TOP

    def rvalue(self, st, r):
        k = r[0]
        if k == 'use' and getattr(self.H, 'boxslots', False) and r[1][0] == 'c' and len(r[1][1]) > 1 and r[1][1][-1] == '*':
            # a temporary copy of the pointer inside a box, to reach through it: the box is what it holds
            t = self.fn(st)['lty'][r[1][1][0]]
            if t[0] == 'ref' and t[1] and t[2][0] == 'adt' and t[2][1] == 'alloc::boxed::Box':
                loc = self.resolve(st, r[1][1])
                if loc[0] == 'slot':
                    return loc
        if k == 'use':
            return self.operand(st, r[1])
        if k == 'ref':
            loc = self.resolve(st, r[2])
            if loc[0] == 'slot':
                if r[1]:
                    return loc
                if getattr(self.H, 'keep_cells', False) and self.iscell(st, r[2]) and \
                        not (len(r[2]) > 1 and loc == ('slot', st.d, r[2][0], ())):
                    return loc
                return self.load(st, loc)
            return self.load_ref(st, loc[1], r[1])
        if k == 'rawptr':
            loc = self.resolve(st, r[1])
            return loc if loc[0] == 'slot' else loc[1]
        if k == 'cast':
            v = self.operand(st, r[2])
            if 'IntToInt' in r[1] or 'Float' in r[1]:
                if v[0] == 'const':
                    if v[1] == 'int' and r[3] is not None and self.fn(st)['T'][r[3]] == ('prim', 'char'):
                        return cchar(chr(v[2]))
                    if v[1] == 'char':
                        return cint(ord(v[2]))
                    if v[1] == 'int' and 'IntToInt' in r[1]:
                        return cint(wrap(v[2], self.fn(st)['T'][r[3]] if r[3] is not None else None))
                    if v[1] == 'int':
                        return v
                return ('op', 'cast', r[1].split('(')[0], v) if v[0] != 'top' else TOP
            return v
        if k == 'bin':
            return self.binop(r[1], self.operand(st, r[2]), self.operand(st, r[3]))
        if k == 'un':
            v = self.operand(st, r[2])
            if r[1] == 'Not':
                if v[0] == 'const' and v[1] == 'bool':
                    return cbool(not v[2])
                if v[0] == 'op' and v[1] == 'Not':
                    return v[2]
                return ('op', 'Not', v)
            if r[1] == 'PtrMetadata':
                return self.lenof(self.deref(st, v))
            return ('op', r[1], v)
        if k == 'discr':
            v = self.read(st, r[1])
            t = self.fn(st)['T'][r[2]]
            t = self.F.subst(t, dict(self.fr(st).sub))
            if v[0] == 'agg' and v[1] == 'adt' and v[3] is not None:
                return self.discr_const(v[2], v[3])
            if v[0] in ('top', 'undef'):
                return TOP
            return ('discr', v, t[1] if t[0] == 'adt' else None)
        if k == 'agg':
            return self.mkagg(st, None, r[1], [self.operand(st, o) for o in r[2]])
        if k == 'tls':
            return ('static', r[1])
        if k == 'repeat':
            return ('op', 'repeat', self.operand(st, r[1]), r[2])
        return TOP

    def iscell(self, st, place):
        """The place itself is a RefCell: shared references to it can be written through."""
        fn = self.fn(st)
        if len(place) != 1:
            return place[-1] == '*'      # reborrow of a reference which is kept as a location
        t = fn['lty'][place[0]]
        return t[0] == 'adt' and t[1].endswith('::RefCell')

    def discr_const(self, adt, vi):
        a = self.F.adt(adt)
        if a:
            return ('const', 'int', int(a['variants'][vi]['discr']))
        return cint(vi)

    def has_slot(self, v):
        return v[0] == 'slot' or (v[0] == 'agg' and any(self.has_slot(x) for x in v[4]))

    def load_ref(self, st, t, mut):
        """Reference to symbolic memory: the term itself identifies the location."""
        if t in st.mem:
            v = st.mem[t]
            if not mut:
                return v
            if v[0] in ('slot',):
                return v
        return t

    def lenof(self, v):
        if v[0] == 'const' and v[1] == 'str':
            return cint(len(v[2].encode()))
        if v[0] == 'agg' and v[1] == 'array':
            return cint(len(v[4]))
        if v[0] in ('top', 'undef'):
            return TOP
        return ('len', v)

    def binop(self, op, a, b):
        if a[0] == 'top' or b[0] == 'top':
            return TOP
        wo = op.endswith('WithOverflow')
        o = op[:-12] if wo else op
        if o.endswith('Unchecked'):
            o = o[:-9]
        r = None
        if a[0] == 'const' and b[0] == 'const' and a[1] == b[1] and a[1] in ('int', 'bool', 'char'):
            x, y = a[2], b[2]
            if a[1] == 'char':
                x, y = ord(x), ord(y)
            try:
                if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                    r = cbool({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[o])
                elif a[1] == 'bool':
                    r = cbool({'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[o])
                elif o in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
                    v = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'BitAnd': lambda: x & y,
                         'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y,
                         'Shr': lambda: x >> y}[o]()
                    r = cint(v) if abs(v) < 4096 else TOP
            except KeyError:
                r = None
        if r is None:
            # counters: {0, 1, .., pos}
            if a == ('pos',) and b[0] == 'const' and b[1] == 'int':
                if o == 'Add':
                    r = ('pos',)
                elif o in ('Gt', 'Ne') and b[2] == 0:
                    r = cbool(True)
                elif o in ('Eq',) and b[2] == 0:
                    r = cbool(False)
                elif o in ('Ge',) and b[2] in (0, 1):
                    r = cbool(True)
                elif o in ('Lt',) and b[2] in (0, 1):
                    r = cbool(False)
                elif o in ('Le',) and b[2] == 0:
                    r = cbool(False)
            if r is None and o in ('BitAnd', 'BitOr'):
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'const' and x[1] == 'bool':
                        if o == 'BitAnd':
                            r = y if x[2] else cbool(False)
                        else:
                            r = cbool(True) if x[2] else y
            if r is None:
                r = ('op', o, a, b)
                if tdepth(r) > MAXDEPTH:
                    r = TOP
        if wo:
            return tup(r, cbool(False))
        return r

    # ------------------------------------------------------------------ assumptions
    def domain(self, st, term, adt):
        if adt is not None:
            n = self.F.nvariants(adt)
            if n:
                return frozenset(int(v['discr']) for v in self.F.adt(adt)['variants'])
        return None

    def assume(self, st, v, val, positive, dom=None):
        """Adds v == val (or v != any of val) as a fact; returns False when contradictory.
        v: scalar value being switched on; val: set of ints."""
        vals = frozenset(val)
        if v[0] == 'const':
            x = v[2]
            if v[1] == 'bool':
                x = 1 if x else 0
            elif v[1] == 'char':
                x = ord(x)
            if isinstance(x, str):
                return True
            return (x in vals) == positive
        if v[0] in ('top', 'undef'):
            return True
        if v[0] == 'pos':
            if positive:
                return vals != frozenset([0])
            return True
        if v[0] == 'op' and v[1] == 'Not':
            inv = frozenset(1 - x for x in vals if x in (0, 1))
            return self.assume(st, v[2], inv, positive, frozenset([0, 1]))
        if v[0] == 'op' and v[1] in ('Eq', 'Ne') and vals <= frozenset([0, 1]):
            a, b = v[2], v[3]
            if a[0] == 'const':
                a, b = b, a
            if b[0] == 'const' and b[1] in ('int', 'bool', 'char') and a[0] not in ('const',):
                truth = (1 in vals) == positive if len(vals) == 1 else None
                if truth is not None:
                    if v[1] == 'Ne':
                        truth = not truth
                    x = b[2] if b[1] == 'int' else (ord(b[2]) if b[1] == 'char' else int(b[2]))
                    if not self.assume(st, a, [x], truth):
                        return False
        if v[0] == 'op' and v[1] in ('BitAnd', 'BitOr') and vals <= frozenset([0, 1]) and len(vals) == 1:
            truth = (1 in vals) == positive
            if v[1] == 'BitAnd' and truth:
                return all(self.assume(st, x, [1], True, frozenset([0, 1])) for x in v[2:4])
            if v[1] == 'BitOr' and not truth:
                return all(self.assume(st, x, [0], True, frozenset([0, 1])) for x in v[2:4])
        key = v
        if v[0] == 'discr':
            dom = self.domain(st, v[1], v[2])
            key = ('discr', v[1])
        elif dom is None and v[0] == 'op' and v[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            dom = frozenset([0, 1])
        cur = st.facts.get(key)
        if cur is None:
            cur = ('in', dom) if dom is not None else ('ni', frozenset())
        if positive:
            if cur[0] == 'in':
                n = ('in', cur[1] & vals)
            else:
                n = ('in', vals - cur[1])
        else:
            if cur[0] == 'in':
                n = ('in', cur[1] - vals)
            else:
                n = ('ni', cur[1] | vals)
        if n[0] == 'in' and not n[1]:
            return False
        if n != st.facts.get(key):
            st.facts[key] = n
            self.H.on_assume(self, st, key)
        return True

    def variants(self, st, term, adt=None):
        """Set of variant indices the term may have in this state (None: unknown type)."""
        term = self.deref(st, term)
        if term[0] == 'agg' and term[1] == 'adt':
            return frozenset([term[3]])
        f = st.facts.get(('discr', term))
        a = self.F.adt(adt) if adt else None
        if f is None:
            return frozenset(range(len(a['variants']))) if a else None
        if f[0] == 'in':
            if a:
                return frozenset(i for i, v in enumerate(a['variants']) if int(v['discr']) in f[1])
            return f[1]
        if a:
            return frozenset(i for i, v in enumerate(a['variants']) if int(v['discr']) not in f[1])
        return None

    def split(self, st, v, adt):
        """Forks on the variant of v: yields (state, variant index)."""
        v = self.deref(st, v)
        if v[0] == 'agg' and v[1] == 'adt':
            return [(st, v[3])]
        a = self.F.adt(adt)
        out = []
        for i in sorted(self.variants(st, v, adt) if v[0] not in ('top', 'undef') else range(len(a['variants']))):
            s = st.copy()
            if v[0] not in ('top', 'undef'):
                if not self.assume(s, ('discr', v, adt), [int(a['variants'][i]['discr'])], True):
                    continue
            out.append((s, i))
        return out

    def payload(self, st, v, vi, i=0):
        v = self.deref(st, v)
        return self.fieldof(st, v, vi, i)

    # ------------------------------------------------------------------ step
    def step(self, st):
        st = st.copy()
        fn = self.fn(st)
        b = fn['blocks'][st.bb]
        for s in b['s']:
            if s[0] == '=':
                self.write(st, s[1], self.rvalue(st, s[2]))
            elif s[0] == 'setd':
                self.write(st, s[1], TOP)
        t = b['t']
        k = t[0]
        if k == 'goto':
            st.bb = t[1]
            return [st]
        if k == 'drop':
            if getattr(self.H, 'drops', False) and len(t[1]) == 1:
                ty = fn['lty'][t[1][0]]
                hit = self.F.find_impl('core::ops::drop::Drop', ty) if ty[0] == 'adt' else None
                if hit and self.get(st, st.d, t[1][0])[0] != 'undef':
                    return self.enter(st, hit[0]['items'][0]['id'], sorted(hit[1].items()), [('slot', st.d, t[1][0], ())], ('k', 'dropped', (t[2],), None), 0)
            st.bb = t[2]
            return [st]
        if k == 'assert':
            c = self.operand(st, t[1])
            if not self.assume(st, c, [1 if t[2] else 0], True, frozenset([0, 1])):
                return []
            st.bb = t[5]
            return [st]
        if k == 'switch':
            return self.switch(st, t)
        if k == 'return':
            return self.ret(st)
        if k == 'call':
            return self.docall(st, t, st.bb)
        if k in ('unreachable', 'resume', 'terminate'):
            return []
        return []

    def switch(self, st, t):
        v = self.operand(st, t[1])
        v = self.deref(st, v)
        ty = self.fn(st)['T'][t[4]]
        dom = frozenset([0, 1]) if ty == ('prim', 'bool') else None
        out = []
        vals = [int(x[0]) for x in t[2]]
        for x, bb in t[2]:
            s = st.copy()
            if self.assume(s, v, [int(x)], True, dom):
                s.bb = bb
                out.append(s)
        s = st.copy()
        if self.assume(s, v, vals, False, dom):
            s.bb = t[3]
            out.append(s)
        return out

    def ret(self, st):
        d = st.d
        v = self.get(st, d, 0)
        fr = st.stack[d]
        v = self.escape(st, v, d)
        for k in [k for k in st.env if k[0] == d]:
            del st.env[k]
        if fr.ret == ('exit',):
            self.H.on_exit(self, st, v)
            return []
        st.stack = st.stack[:-1]
        return self.resume(st, fr.ret, v)

    def escape(self, st, v, d):
        """Slot pointers into the dying frame are replaced by their values."""
        if v[0] == 'slot' and v[1] == d:
            return self.escape(st, self.load(st, v), d)
        if v[0] == 'agg':
            return v[:4] + (tuple(self.escape(st, x, d) for x in v[4]),)
        if v[0] == 'clos':
            return v[:3] + (tuple(self.escape(st, x, d) for x in v[3]),)
        return v

    def resume(self, st, ret, v):
        if ret[0] == 'bb':
            fn = self.fn(st)
            t = fn['blocks'][ret[1]]['t']
            self.write(st, t[3], v)
            if t[4] is None:
                return []
            st.bb = t[4]
            return [st]
        if ret[0] == 'k':
            return CONT[ret[1]](self, st, ret[2], ret[3], v)
        if ret[0] == 'exit':
            self.H.on_exit(self, st, v)
            return []
        raise AssertionError(ret)

    # ------------------------------------------------------------------ calls
    def docall(self, st, t, bb):
        f = t[1]
        fn = self.fn(st)
        args = [self.operand(st, a) for a in t[2]]
        ret = ('bb', bb)
        line = t[6]
        if 'op' in f:
            cv = self.deref(st, self.operand(st, f['op']))
            return self.invoke(st, cv, args, ret, line)
        sub = dict(self.fr(st).sub)
        c = Call()
        c.id, c.path = f['id'], f['path']
        c.np = norm_path(f['path'])
        T = fn['T']
        c.targs = tuple(self.F.subst(T[x], sub) if isinstance(x, int) else ('k', x) for x in f['args'])
        c.trait = f['trait']
        r = f.get('res')
        c.res = None
        if r:
            c.res = (r['id'], tuple(self.F.subst(T[x], sub) if isinstance(x, int) else ('k', x) for x in r['args']))
        c.args, c.ret, c.line, c.fid = args, ret, line, fn['id']
        c.argtys = tuple(self.opty(fn, a, sub) for a in t[2])
        c.site = (fn['id'], bb)
        return self.call(st, c)

    def opty(self, fn, o, sub):
        if o[0] == 'k':
            return self.F.subst(fn['T'][o[1]['t']], sub)
        if o[0] in 'cm' and len(o[1]) == 1:
            return self.F.subst(fn['lty'][o[1][0]], sub)
        return None

    def invoke(self, st, cv, args, ret, line=None, site=None):
        """Calls a function value with an argument list."""
        cv = self.deref(st, cv)
        if line is None:
            line = st.stack[-1].line if st.stack else 0
        if cv[0] == 'clos':
            fid = cv[1]
            fn = self.F.fns.get(fid)
            if fn is None:
                return self.resume(st, ret, TOP)
            r = self.H.on_call_closure(self, st, cv, args, ret) if hasattr(self.H, 'on_call_closure') else None
            if r is not None:
                return r
            if len(st.stack) >= self.H.max_inline or \
                    sum(1 for f in st.stack if f.fid == fid) > max(1, getattr(self.H, 'max_rec', 0)):
                return self.resume(st, ret, TOP)
            return self.enter(st, fid, cv[2], [cv] + list(args), ret, line)
        if cv[0] == 'fn':
            if cv[1].endswith('{constructor#0}'):
                base = cv[1][:-len('::{constructor#0}')]
                if self.F.adt(base):
                    return self.resume(st, ret, ('agg', 'adt', base, 0, tuple(args)))
                parent, name = base.rsplit('::', 1)
                if self.F.adt(parent):
                    return self.resume(st, ret, ('agg', 'adt', parent, self.F.vindex(parent, name), tuple(args)))
                return self.resume(st, ret, TOP)
            c = Call()
            c.id, c.path = cv[1], cv[3]
            c.np = norm_path(cv[3])
            c.targs, c.trait, c.res = cv[2], cv[4], None
            if c.trait is None:
                c.res = (cv[1], cv[2])
            c.args, c.ret, c.line = list(args), ret, line
            c.fid = st.stack[-1].fid if st.stack else self.entry
            c.argtys = tuple(None for _ in args)
            c.site = site or ('fnval', cv[1])
            return self.call(st, c)
        r = self.H.on_unknown_fn(self, st, cv, args, ret, line) if hasattr(self.H, 'on_unknown_fn') else None
        if r is not None:
            return r
        return self.resume(st, ret, ('op', 'apply', cv) + tuple(self.full(st, a) for a in args)
                           if cv[0] != 'top' else TOP)

    def enter(self, st, fid, sub, args, ret, line):
        self.inlined.add(fid)
        st.stack = st.stack + (Frame((fid, tuple(sub), ret, line)),)
        st.bb = 0
        d = st.d
        for i, a in enumerate(args):
            st.env[(d, i + 1)] = a
        return [st]

    def target(self, st, c):
        """Resolves a call to (workspace fn id, substs) or None."""
        F = self.F
        if c.trait is not None:
            selfty = c.targs[0] if c.targs else None
            if selfty is not None and selfty[0] not in ('param', 'alias'):
                hit = F.find_impl(c.trait, selfty, c.targs)
                name = c.id.rsplit('::', 1)[1]
                if hit:
                    im, m = hit
                    for it in im['items']:
                        if it['name'] == name and it['kind'] == 'fn':
                            fn = F.fns.get(it['id'])
                            if fn is None:
                                return None
                            sub = dict(m)
                            # method generics follow the impl generics
                            own = c.targs[len(im['targty']):]
                            gen = [g for g in fn['generics']]
                            if own:
                                for g, a in zip(gen[-len(own):], own):
                                    sub[g] = a
                            return it['id'], tuple(sorted(sub.items()))
                    # default method
                    fn = F.fns.get(c.id)
                    if fn is not None:
                        return c.id, tuple(sorted(zip(fn['generics'], c.targs)))
            if c.res and c.res[0] in F.fns and selfty is not None and selfty[0] not in ('param', 'alias'):
                fn = F.fns[c.res[0]]
                return c.res[0], tuple(sorted(zip(fn['generics'], c.res[1])))
            return None
        fid = c.res[0] if c.res else c.id
        ta = c.res[1] if c.res else c.targs
        if fid in F.fns:
            fn = F.fns[fid]
            return fid, tuple(sorted(zip(fn.get('generics') or [], ta)))
        return None

    def call(self, st, c):
        c.st = st
        r = self.H.on_call(self, st, c)
        if r is not None:
            return r
        if c.id.startswith('core::ops::function::Fn') and len(c.args) == 2:
            a = self.deref(st, c.args[1])
            al = list(a[4]) if a[0] == 'agg' else [TOP]
            return self.invoke(st, c.args[0], al, c.ret, c.line, c.site)
        if c.id in ('core::convert::From::from', 'core::convert::Into::into') and len(c.targs) >= 2 and \
                c.targs[0] == c.targs[1]:
            return self.resume(st, c.ret, c.args[0])
        tgt = self.target(st, c)
        if tgt is None or tgt[0] not in self.F.fns:
            m = MODELS.get(c.np) or (models.int_method if c.np.startswith(('num::', 'cmp::Ord::')) else None)
            if m is not None:
                r = m(self, st, c)
                if r is not None:
                    return r
            if c.id.endswith('{constructor#0}'):
                return self.invoke(st, ('fn', c.id, c.targs, c.path, None), c.args, c.ret)
            return self.do_opaque(st, c)
        fid, sub = tgt
        if not self.F.fns[fid]['blocks']:
            return self.do_opaque(st, c)
        if len(st.stack) >= self.H.max_inline or sum(1 for f in st.stack if f.fid == fid) > getattr(self.H, 'max_rec', 0) or \
                not self.H.inline_ok(self, st, fid, c):
            return self.do_opaque(st, c)
        return self.enter(st, fid, sub, c.args, c.ret, c.line)

    def is_mut(self, st, c, i):
        t = c.argtys[i] if i < len(c.argtys) else None
        return t is not None and t[0] == 'ref' and t[1]

    def do_opaque(self, st, c, result=None):
        """Unknown function: results are opaque terms, mutably borrowed arguments are havocked."""
        self.opaque[c.np] = self.opaque.get(c.np, 0) + 1
        self.H.call_opaque(self, st, c)
        vals = tuple(self.full(st, a) for a in c.args)
        mut = False
        for i, a in enumerate(c.args):
            if self.is_mut(st, c, i) or a[0] == 'slot':
                mut = True
                if a[0] == 'slot':
                    self.store(st, a, TOP)
                elif a[0] not in ('top', 'const', 'agg', 'clos', 'fn'):
                    self.invalidate(st, a)
        if c.ret[0] == 'bb':
            fn = self.fn(st)
            t = fn['blocks'][c.ret[1]]['t']
            if t[4] is None:
                self.H.on_diverge(self, st, c)
                return []
        if result is None:
            tag = c.site if mut else None
            result = ('op', c.np, tag) + vals
            if tag is not None:
                self.invalidate(st, result)
            if tdepth(result) > MAXDEPTH:
                result = ('opq', c.np, c.site)
                self.invalidate(st, result)
        return self.resume(st, c.ret, result)

    # ------------------------------------------------------------------ events
    def event(self, st, text):
        st.trace = (st.trace, text)

    def where(self, st):
        fr = st.stack[-1] if st.stack else None
        if fr is None:
            return '?'
        fn = self.F.fns[fr.fid]
        return '%s (%s)' % (self.F.fnname(fr.fid), fn['span'][0])

    def trace(self, st, n=25):
        out, t = [], st.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        return list(reversed(out))

    # ------------------------------------------------------------------ printing
    def show(self, t, depth=0):
        F = self.F
        if not isinstance(t, tuple):
            return str(t)
        if depth > 8:
            return '..'
        k = t[0]
        s = lambda x: self.show(x, depth + 1)
        if k == 'sym':
            return t[1]
        if k == 'fld':
            ty = self.typeof(t[1])
            nm = None
            if ty and ty[0] == 'adt' and ty[1] in F.adts:
                v = F.adts[ty[1]]['variants'][t[2] or 0]
                if t[3] < len(v['fields']):
                    nm = v['fields'][t[3]]['name']
            if t[2] is not None and ty and ty[0] == 'adt':
                return '%s.%s.%s' % (s(t[1]), F.vname(ty[1], t[2]), nm or t[3])
            return '%s.%s' % (s(t[1]), nm or t[3])
        if k == 'elem':
            return '%s[*]' % s(t[1])
        if k == 'idx':
            return '%s[%s]' % (s(t[1]), t[2])
        if k == 'const':
            return repr(t[2])
        if k == 'agg':
            if t[1] == 'adt':
                a = F.adt(t[2])
                n = t[2].split('::')[-1]
                if a and len(a['variants']) > 1:
                    n += '::' + F.vname(t[2], t[3])
                return '%s(%s)' % (n, ', '.join(map(s, t[4])))
            return '(%s)' % ', '.join(map(s, t[4]))
        if k == 'op' or k == 'opq':
            return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2:] if isinstance(x, tuple) and x and isinstance(x[0], str) and not x[0].startswith('hcl')))
        if k == 'clos':
            return '{closure}'
        if k == 'fn':
            return norm_path(t[3])
        if k == 'coll':
            return 'collection{%s}' % ', '.join(sorted(map(s, t[1])))
        if k == 'discr':
            return 'variant(%s)' % s(t[1])
        if k == 'len':
            return 'len(%s)' % s(t[1])
        return k

    # ------------------------------------------------------------------ types of terms
    def sym(self, name, ty):
        self.symty[name] = ty
        return ('sym', name)

    def strip(self, ty):
        """Peels references and boxes."""
        while ty:
            if ty[0] in ('ref', 'ptr'):
                ty = ty[2]
            elif ty[0] == 'adt' and ty[1] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc') and ty[2]:
                ty = ty[2][0]
            else:
                return ty
        return ty

    def elemty(self, ty):
        ty = self.strip(ty)
        if not ty:
            return None
        if ty[0] in ('slice', 'array'):
            return ty[1]
        if ty[0] == 'adt':
            n = ty[1].split('::')[-1]
            if n in ('Vec', 'VecDeque', 'Option', 'BTreeSet', 'HashSet', 'IndexSet') and ty[2]:
                return ty[2][0]
            if n in ('VecMap', 'IndexMap', 'BTreeMap', 'HashMap') and len(ty[2]) >= 2:
                return ('tuple', (ty[2][0], ty[2][1]))
        return None

    def typeof(self, t):
        if not isinstance(t, tuple):
            return None
        k = t[0]
        if k == 'sym':
            return self.strip(self.symty.get(t[1]))
        if k == 'fld':
            if t in self._typecache:
                return self._typecache[t]
            b = self.typeof(t[1])
            r = None
            if b:
                if b[0] == 'tuple':
                    r = b[1][t[3]] if t[3] < len(b[1]) else None
                elif b[0] == 'adt':
                    if b[1] == OPT:
                        r = b[2][0] if t[2] == 1 else None
                    elif b[1] == RES:
                        r = b[2][t[2]] if t[2] is not None else None
                    elif b[1] == COW:
                        r = b[2][0] if b[2] else None
                    else:
                        a = self.F.adts.get(b[1])
                        if a:
                            v = a['variants'][t[2] or 0]
                            if t[3] < len(v['fields']):
                                r = self.F.subst(v['fields'][t[3]]['ty'], dict(zip(a['generics'], b[2])))
            r = self.strip(r)
            self._typecache[t] = r
            return r
        if k in ('elem', 'idx', 'at'):
            return self.strip(self.elemty(self.typeof(t[1])))
        if k == 'agg' and t[1] == 'adt':
            return ('adt', t[2], ())
        if k == 'const':
            return ('prim', {'str': 'str', 'int': 'int', 'bool': 'bool', 'char': 'char'}.get(t[1], t[1]))
        return None


import models  # noqa: E402,F401  (registers MODELS and CONT handlers)
