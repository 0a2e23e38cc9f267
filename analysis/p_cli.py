"""P20: hcl2json converts every input, reports every error and writes all of its output."""
import itertools
from p_eval import *

FALLIBLE = ('open', 'build', 'from_reader', 'from_slice', 'from_str', 'from_body', 'read_to_end', 'read_to_string', 'to_string', 'to_vec', 'to_string_pretty', 'to_vec_pretty',
            'to_value', 'parse', 'parse_body')


def got(n, *xs):
    return ('agg', 'got', n, None, tuple(xs))


def strip(x):
    """A path, reader or writer without its buffer and conversions."""
    while x[:2] == ('agg', 'got') and x[2] in ('buf', 'lock', 'shown', 'by'):
        x = x[4][0]
    return x


def sym_of(x):
    return ('sym', '-') if x == cstr('-') else x


class CliH(Conc):
    max_inline = 60
    max_rec = 4
    dirs = {}
    args = None
    text = {}

    def fork(self, E, st, ret, good, *ev):
        s = st.copy()
        s.mon = s.mon + (('failed',) + ev,)
        st.mon = st.mon + (('did',) + ev,)
        return E.resume(s, ret, err(('sym', 'error'))) + E.resume(st, ret, ok(good))

    def on_call(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        R = lambda v: E.resume(st, c.ret, v)
        if E.target(st, c) is not None and (c.id.startswith('hcl2json::') or c.path.startswith('hcl2json::')):
            return Conc.on_call(self, E, st, c)
        full = lambda i: E.full(st, E.deref(st, a[i]))
        lib = c.path.split('::')[0].lstrip('<')
        if n == 'parse' and lib == 'clap':
            return R(self.args)
        if n in ('stdin', 'stdout', 'stderr') and not a:
            return R(got(n))
        if n == 'new' and 'BufWriter' in np or n == 'new' and 'BufReader' in np or n == 'new' and 'LineWriter' in np:
            return R(got('buf', full(0)))
        if n == 'with_capacity' and ('BufWriter' in np or 'BufReader' in np):
            return R(got('buf', full(1)))
        if n in ('lock', 'by_ref', 'get_mut') and a and full(0)[:2] == ('agg', 'got'):
            return R(full(0))
        if n in ('into_par_iter', 'par_iter'):
            return R(as_iter(E, st, a[0]))
        if np.startswith('rayon::') or lib == 'rayon':
            # a parallel iterator keeps the order of its items
            c.np = np = 'iter::Iterator::' + n
            c.id, c.trait, c.res, c.path = ITER + '::' + n, ITER, None, 'std::' + np
            return Conc.on_call(self, E, st, c)
        if n in ('with_context', 'context') and a:
            return R(E.full(st, a[0]))
        if n in ('_eprint', '_print'):
            st.mon = st.mon + ((n, E.full(st, a[0])),)
            return R(UNIT)
        if lib == 'anyhow' or n == 'format_err':
            return R(('sym', 'error'))
        if n == 'join':
            return R(got('joined', full(0), full(1)))
        if 'GlobBuilder' in np and n == 'new':
            return R(got('glob', full(0)))
        if 'Glob' in np and n == 'build':
            return self.fork(E, st, c.ret, full(0), 'glob', full(0))
        if 'Glob' in np and n != 'is_match' and a:
            return R(full(0))
        if 'WalkDir' in np and n == 'new':
            return R(got('walk', strip(full(0))))
        if n == 'into_iter' and a and full(0)[:3] == ('agg', 'got', 'walk'):
            es = tuple(('sym', 'entry:' + e) for e in self.dirs[full(0)[4][0]])
            out = []
            for i, e in enumerate(es):
                s = st.copy()
                s.mon = s.mon + (('failed', 'walk', e),)
                out += E.resume(s, c.ret, ('it', 'list', tuple(err(('sym', 'error')) if x == e else ok(x) for x in es), 0))
            return out + R(('it', 'list', tuple(ok(x) for x in es), 0))
        if a and full(0)[:3] == ('agg', 'got', 'walk'):
            return R(full(0))
        if n == 'open' and 'File' in np:
            x = strip(full(0))
            return self.fork(E, st, c.ret, got('file', x), 'open', x)
        if n == 'is_dir':
            x = strip(full(0))
            return R(cbool(x in self.dirs))
        if n in ('is_file', 'is_match') or n == 'exists':
            x = strip(full(0 if n != 'is_match' else 1))
            s = st.copy()
            s.mon = s.mon + ((n, x, False),)
            st.mon = st.mon + ((n, x, True),)
            return E.resume(s, c.ret, cbool(False)) + R(cbool(True))
        if n in ('eq', 'ne') and a and len(a) == 2:
            x, y = (sym_of(strip(full(i))) for i in (0, 1))
            if any(t[0] in ('sym', 'agg') and (t[0] == 'sym' or t[1] == 'got') for t in (x, y)) or x[:2] == ('const', 'str') and y[:2] == ('const', 'str'):
                return R(cbool((x == y) == (n == 'eq')))
        if n in ('new', 'from', 'as_path', 'as_ref', 'to_path_buf', 'clone', 'to_owned', 'into', 'deref', 'borrow', 'as_os_str', 'to_string_lossy', 'into_path', 'path',
                 'display', 'to_str', 'into_owned', 'as_str', 'as_mut', 'into_os_string', 'to_string') and a and len(a) == 1:
            x = full(0)
            if x[:2] in (('agg', 'got'), ('const', 'str')) or x[0] == 'sym':
                if n == 'into_path' or n == 'path':
                    return R(x)
                return R(('sym', '-') if x == cstr('-') else x)
        if n == 'evaluate_in_place' and a:
            E.store(st, a[0], got('simplified', E.full(st, E.deref(st, a[0]))))
            s = st.copy()
            return E.resume(s, c.ret, err(('sym', 'ignored'))) + R(ok(UNIT))
        if n == 'evaluate' and a:
            return None
        if n == 'default' and not a:
            return R(('sym', 'default'))
        if n in ('to_writer', 'to_writer_pretty'):
            return self.fork(E, st, c.ret, UNIT, 'write', n.endswith('pretty'), strip(full(0)), full(1))
        if n in ('write_all', 'write') and len(a) == 2:
            x = full(1)
            if x[:3] == ('agg', 'got', 'json'):
                return self.fork(E, st, c.ret, UNIT, 'write', x[4][0] == cbool(True), strip(full(0)), x[4][1])
        if n == 'flush':
            return self.fork(E, st, c.ret, UNIT, 'flush', strip(full(0)))
        if lib == 'serde_json' and n in FALLIBLE:
            return self.fork(E, st, c.ret, got('json', cbool('pretty' in n), full(0)), 'json')
        if n in ('as_bytes', 'as_slice', 'into_bytes') and a and full(0)[:2] == ('agg', 'got'):
            return R(full(0))
        if n in ('read_to_end', 'read_to_string') and len(a) == 2:
            x = strip(full(0))
            E.store(st, a[1], got('content', x))
            return self.fork(E, st, c.ret, cint(1), 'take', x)
        if n in FALLIBLE and lib.startswith('hcl'):
            x = strip(full(0))
            if x[:3] == ('agg', 'got', 'content'):
                x = x[4][0]
            if n == 'from_body':
                return self.fork(E, st, c.ret, got('value', x), 'from_body', x)
            return self.fork(E, st, c.ret, got('read', x), 'read', x)
        return Conc.on_call(self, E, st, c)


def run(rep):
    F = load('perf')
    rep.rule('Every input is read and converted once and in order; an error of any input, of the conversion or of writing makes the program fail unless it is to '
             'continue, when only that input is left out, with a warning; the output is written once, as configured, and flushed before success.')
    main = 'hcl2json::main'
    rep.oblige(main in F.fns, 'anchor:main', 'no main function (anchor)')
    args = [a for a in F.adts.values() if a['crate'] == 'hcl2json' and a['id'].split('::')[-1] == 'Args']
    rep.oblige(len(args) == 1, 'anchor:args', 'no arguments (anchor)')
    if main not in F.fns or len(args) != 1:
        return
    args = args[0]
    flags = ('file_paths', 'pretty', 'continue_on_error', 'simplify')
    names = [f['name'] for f in args['variants'][0]['fields']]
    rep.oblige(set(flags + ('glob', 'paths')) <= set(names), 'anchor:flags', 'the arguments are not %s but %s (anchor)' % (flags, names))
    sym = lambda n: ('sym', n)
    dirs = {sym('d1'): ('x',), sym('d2'): ('y', 'z')}
    lists = [(), ('-',), ('f1',), ('d1',), ('d2',), ('f1', 'f2'), ('f2', '-'), ('d1', 'f1'), ('f1', 'd2'), ('f2', 'f3', 'f1')]
    for ps in lists:
        for fl in itertools.product((False, True), repeat=4):
            if ps in ((), ('-',), ('f1',)) and fl[2] and not fl[3] or len(ps) == 2 and fl[3]:
                continue
            for glob in ((False, True) if any(p[0] == 'd' for p in ps) else (True,)):
                fd = dict(zip(flags, map(cbool, fl)))
                fd['glob'] = some(sym('pattern')) if glob else NONE
                fd['paths'] = arr(tuple(map(sym, ps)))
                one(rep, F, main, struct(F, args, **fd), dirs, ps, dict(zip(flags, fl)), glob)
    rep.floor('runs', 50)
    rep.floor('paths', 500)


def one(rep, F, main, av, dirs, ps, fl, glob):
    h = CliH(F=F)
    h.ucall = None
    h.args, h.dirs = av, dirs
    E = Engine(F, h)
    h.E = E
    what = 'hcl2json %s %s' % (' '.join('--' + k for k in fl if fl[k]), ' '.join(ps))
    key = 'many' if len(ps) > 1 or any(p[0] == 'd' for p in ps) else 'one'
    try:
        E.run(main, [], None, ())
    except Limit as e:
        rep.oblige(False, key + ':limit', '%s: %s' % (what, e))
        return
    rep.count('runs')
    rep.oblige(bool(h.exits), key + ':end', '%s never ends' % what)
    for st, v in h.exits:
        rep.count('paths')
        judge(rep, key, what, st.mon, v, dirs, ps, fl, glob)


def judge(rep, key, what, mon, v, dirs, ps, fl, glob):
    isok = v[:2] == ('agg', 'adt') and v[2] == RES and v[3] == 0
    sym = lambda n: ('sym', n)
    bulk = key == 'many'
    path = '; '.join(' '.join(map(str, m))[:80] for m in mon)[-400:]
    say = lambda m: '%s %s (%s)' % (what, m, path)
    bad = [m for m in mon if m[0] == 'failed']
    go = bulk and fl['continue_on_error']
    fatal = [m for m in bad if not go or m[1] in ('write', 'flush', 'json', 'glob')]
    lost = any(p[0] == 'd' for p in ps) and not glob
    if fatal or lost:
        rep.oblige(not isok, key + ':error:' + (fatal[0][1] if fatal else 'glob'), say('succeeds although %s failed' % (fatal[0][1] if fatal else 'a pattern is missing')))
        return
    warned = sum(m[0] == '_eprint' for m in mon)
    rep.oblige(warned >= len(bad), key + ':warn', say('does not warn of every input left out'))
    rep.oblige(isok, key + ':fails', say('fails without an error'))
    if not isok:
        return
    ins = []
    if not bulk:
        p = ps[0] if ps else '-'
        ins = [None if p == '-' else sym(p)]
    else:
        for p in ps:
            if sym(p) not in dirs:
                ins.append(sym(p))
                continue
            for e in dirs[sym(p)]:
                x = sym('entry:' + e)
                f = [m[2] for m in mon if m[0] == 'is_file' and m[1] == x]
                g = [m[2] for m in mon if m[0] == 'is_match' and m[1] == x]
                if f == [True] and g == [True]:
                    ins.append(x)
                else:
                    rep.oblige(False in f + g or any(m[0] == 'failed' and m[1] == 'walk' for m in mon), key + ':entry', say('leaves out an entry of the directory'))
    vals = []
    for p in ins:
        r = got('stdin') if p is None else got('file', p)
        seen = [m for m in mon if m[0] in ('did', 'failed') and m[1] in ('open', 'take', 'read', 'from_body') and (contains(m, p) if p else contains(m, r))]
        if any(m[0] == 'failed' for m in seen):
            continue
        x = got('value', got('simplified', got('read', r))) if fl['simplify'] else got('read', r)
        vals.append((p, x))
        rep.oblige(sum(m[1] == 'read' for m in seen) == 1, key + ':read', say('does not read every input once'))
    want = vals[0][1] if not bulk and vals else arr(tuple(tup(p, x) if fl['file_paths'] else x for p, x in vals))
    out = [m for m in mon if m[0] == 'did' and m[1] in ('write', 'flush')]
    w = [m for m in out if m[1] == 'write']
    rep.oblige(len(w) == 1, key + ':written', say('writes %d values' % len(w)))
    if len(w) != 1:
        return
    rep.oblige(out[-1][1] == 'flush' and out[-1][2] == w[0][3], key + ':flushed', say('does not flush its output after writing'))
    rep.oblige(w[0][3] == got('stdout'), key + ':out', say('writes to %s' % str(w[0][3])))
    rep.oblige(w[0][2] == fl['pretty'], key + ':pretty', say('writes %s' % ('pretty' if w[0][2] else 'compact')))
    rep.oblige(norm(w[0][4]) == norm(want), key + ':value', say('writes %s and not %s' % (str(w[0][4])[:300], str(want)[:300])))
