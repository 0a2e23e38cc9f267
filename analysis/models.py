"""Models of the standard library (and a few dependency) functions used by the workspace."""
from engine import (MODELS, CONT, model, cont, some, ok, err, NONE, UNIT, TOP, OPT, RES, CFL, COW,
                    cbool, cint, cstr, cchar, tup, tdepth, contains, MAXDEPTH)

# ---------------------------------------------------------------- identity-like functions
IDENT = '''clone::Clone::clone borrow::ToOwned::to_owned convert::AsRef::as_ref convert::AsMut::as_mut
ops::Deref::deref ops::DerefMut::deref_mut borrow::Borrow::borrow borrow::BorrowMut::borrow_mut
boxed::Box::new boxed::Box::into_inner string::String::as_str string::String::as_mut_str borrow::Cow::into_owned
cell::RefCell::borrow cell::RefCell::borrow_mut cell::RefCell::new cell::RefCell::into_inner hint::must_use
option::Option::as_ref option::Option::as_mut option::Option::as_deref option::Option::as_deref_mut
option::Option::cloned option::Option::copied result::Result::as_ref result::Result::as_mut
result::Result::cloned result::Result::copied vec::Vec::as_slice vec::Vec::as_mut_slice vec::Vec::into_boxed_slice
slice::impl::to_vec slice::impl::into_vec str::impl::to_string string::String::into_boxed_str
str::impl::to_owned string::String::from_utf8_unchecked str::from_utf8_unchecked str::impl::as_bytes
string::String::as_bytes string::String::into_bytes iter::Iterator::by_ref mem::ManuallyDrop::new
boxed::Box::as_ref boxed::Box::as_mut rc::Rc::new sync::Arc::new
iter::Iterator::cloned iter::Iterator::copied str::impl::into_string option::Option::into_iter
boxed::Box::into_boxed_slice fmt::Arguments::from_str fmt::Arguments::from_str_nonconst'''.split()


def ident(E, st, c):
    return E.resume(st, c.ret, c.args[0])


for _n in IDENT:
    MODELS[_n] = ident


@model('boxed::box_assume_init_into_vec_unsafe')
def m_vec_macro(E, st, c):
    # vec![..]: the array was written into the fresh allocation just before
    b = c.args[0]
    for k in list(st.mem):
        if k[0] == 'fld' and contains(k, b):
            v = st.mem[k]
            E.invalidate(st, b)
            return E.resume(st, c.ret, v)
    return E.resume(st, c.ret, b)


@model('string::ToString::to_string')
def m_to_string(E, st, c):
    v = E.full(st, c.args[0])
    t = E.strip(c.targs[0]) if c.targs else None
    if v[0] == 'const' and v[1] in ('str', 'char'):
        return E.resume(st, c.ret, cstr(v[2]))
    if t and (t == ('prim', 'str') or t[0] == 'adt' and t[1].split('::')[-1] in ('String', 'Cow')):
        return E.resume(st, c.ret, v)
    return None


@model('convert::Into::into', 'convert::From::from')
def m_into(E, st, c):
    isinto = c.np.endswith('into')
    if len(c.targs) < 2:
        return None
    src, dst = (c.targs[0], c.targs[1]) if isinto else (c.targs[1], c.targs[0])
    if isinto:
        # resolve to the From impl
        from engine import Call
        n = Call()
        n.id, n.path, n.np = 'core::convert::From::from', 'std::convert::From::from', 'convert::From::from'
        n.targs, n.trait, n.res = (dst, src), 'core::convert::From', None
        n.args, n.ret, n.line, n.fid, n.argtys, n.site = c.args, c.ret, c.line, c.fid, c.argtys, c.site
        # a direct Into impl?
        return E.call(st, n)
    if src[0] in ('alias', 'param') and c.args[0][0] == 'agg' and c.args[0][1] == 'adt' and c.args[0][2] in E.F.adts \
            and not E.F.adts[c.args[0][2]]['generics']:
        # an item type that was not resolved: the value tells
        c.targs = (dst, ('adt', c.args[0][2], ()))
        return E.resume(st, c.ret, c.args[0]) if c.targs[1] == dst else E.call(st, c)
    if src == dst:
        return E.resume(st, c.ret, c.args[0])
    if src[0] == 'prim' and dst[0] == 'prim' and src[1][0] in 'iu' and dst[1][0] in 'iu':
        v = E.deref(st, c.args[0])
        if v[0] == 'const':
            return E.resume(st, c.ret, v)
    d = dst
    if d and d[0] == 'adt' and d[1] == OPT and src != dst:
        return E.resume(st, c.ret, some(c.args[0]))
    if d and d[0] == 'adt' and d[1] == 'alloc::boxed::Box':
        return E.resume(st, c.ret, c.args[0])
    if d and d[0] == 'adt' and d[1] == COW:
        own = src and src[0] == 'adt' and src[1].endswith('::String')
        return E.resume(st, c.ret, c.args[0])
    sn, dn = E.strip(src), E.strip(d)

    def texty(t):
        return t is not None and (t == ('prim', 'str') or t[0] == 'adt' and t[1].split('::')[-1] in
                                  ('String', 'Vec', 'Cow', 'Kstring', 'KString') or t[0] in ('slice', 'array'))
    if texty(sn) and texty(dn):
        return E.resume(st, c.ret, c.args[0])
    return None


@model('convert::TryFrom::try_from', 'convert::TryInto::try_into')
def m_try(E, st, c):
    from engine import BITS, wrap
    to = c.targs[1 if c.np.endswith('try_into') else 0] if len(c.targs) >= 2 else None
    x = E.deref(st, c.args[0])
    if to and to[0] == 'prim' and to[1] in BITS and x[:2] == ('const', 'int') and isinstance(x[2], int):
        return E.resume(st, c.ret, ok(x) if wrap(x[2], to) == x[2] else err(('sym', 'out of range')))
    if c.np.endswith('try_into') and len(c.targs) >= 2:
        from engine import Call
        n = Call()
        n.id, n.path, n.np = 'core::convert::TryFrom::try_from', 'std::convert::TryFrom::try_from', 'convert::TryFrom::try_from'
        n.targs, n.trait, n.res = (c.targs[1], c.targs[0]), 'core::convert::TryFrom', None
        n.args, n.ret, n.line, n.fid, n.argtys, n.site = c.args, c.ret, c.line, c.fid, c.argtys, c.site
        if E.target(st, n):
            return E.call(st, n)
        # Infallible blanket over From
        n2 = Call()
        n2.id, n2.path, n2.np = 'core::convert::From::from', 'std::convert::From::from', 'convert::From::from'
        n2.targs, n2.trait, n2.res = n.targs, 'core::convert::From', None
        n2.args, n2.ret, n2.line, n2.fid, n2.argtys, n2.site = c.args, ('k', 'wrap_ok', None, c.ret), c.line, c.fid, c.argtys, c.site
        if E.target(st, n2):
            return E.call(st, n2)
    return None


@cont('wrap_ok')
def k_wrap_ok(E, st, data, ret, v):
    return E.resume(st, ret, ok(v))


@cont('wrap_err')
def k_wrap_err(E, st, data, ret, v):
    return E.resume(st, ret, err(v))


@cont('wrap_some')
def k_wrap_some(E, st, data, ret, v):
    return E.resume(st, ret, some(v))


@cont('const')
def k_const(E, st, data, ret, v):
    return E.resume(st, ret, data)


# ---------------------------------------------------------------- Try
@model('ops::Try::branch')
def m_branch(E, st, c):
    t = c.targs[0]
    v = c.args[0]
    out = []
    if t[0] == 'adt' and t[1] in (OPT, RES):
        for s, vi in E.split(st, v, t[1]):
            if t[1] == OPT:
                if vi == 1:
                    out += E.resume(s, c.ret, ('agg', 'adt', CFL, 0, (E.payload(s, v, 1),)))
                else:
                    out += E.resume(s, c.ret, ('agg', 'adt', CFL, 1, (NONE,)))
            else:
                if vi == 0:
                    out += E.resume(s, c.ret, ('agg', 'adt', CFL, 0, (E.payload(s, v, 0),)))
                else:
                    out += E.resume(s, c.ret, ('agg', 'adt', CFL, 1, (err(E.payload(s, v, 1)),)))
        return out
    return None


@model('ops::FromResidual::from_residual')
def m_residual(E, st, c):
    v = E.deref(st, c.args[0])
    t = c.targs[0]
    if v[0] == 'agg' and v[2] == RES and v[3] == 1:
        if t[0] == 'adt' and t[1] == OPT:
            return E.resume(st, c.ret, NONE)
        et = t[2][1] if t[0] == 'adt' and t[1] == RES and len(t[2]) > 1 else None
        src = c.targs[1][2][1] if len(c.targs) > 1 and c.targs[1][0] == 'adt' and len(c.targs[1][2]) > 1 else None
        if et is not None and src is not None and et != src:
            return E.resume(st, c.ret, err(('op', 'from_err', None, v[4][0])))
        return E.resume(st, c.ret, v)
    if v[0] == 'agg' and v[2] == OPT:
        return E.resume(st, c.ret, NONE)
    return E.resume(st, c.ret, v)


# ---------------------------------------------------------------- Option / Result
def opt_split(E, st, v):
    return E.split(st, v, OPT)


def res_split(E, st, v):
    return E.split(st, v, RES)


@model('option::Option::map', 'option::Option::and_then', 'option::Option::map_or', 'option::Option::map_or_else',
       'option::Option::is_some_and', 'option::Option::is_none_or', 'option::Option::inspect', 'option::Option::filter')
def m_optmap(E, st, c):
    n = c.np.split('::')[-1]
    out = []
    v = c.args[0]
    for s, vi in opt_split(E, st, v):
        if vi == 0:
            if n in ('map', 'and_then', 'inspect', 'filter'):
                out += E.resume(s, c.ret, NONE)
            elif n == 'map_or':
                out += E.resume(s, c.ret, c.args[1])
            elif n == 'map_or_else':
                out += E.invoke(s, c.args[1], [], c.ret, c.line, c.site)
            elif n == 'is_some_and':
                out += E.resume(s, c.ret, cbool(False))
            else:
                out += E.resume(s, c.ret, cbool(True))
        else:
            p = E.payload(s, v, 1)
            f = c.args[-1]
            if n == 'map':
                out += E.invoke(s, f, [p], ('k', 'wrap_some', None, c.ret), c.line, c.site)
            elif n == 'inspect':
                out += E.invoke(s, f, [p], ('k', 'const', some(p), c.ret), c.line, c.site)
            elif n == 'filter':
                out += E.invoke(s, f, [p], ('k', 'optfilter', p, c.ret), c.line, c.site)
            else:
                out += E.invoke(s, f, [p], c.ret, c.line, c.site)
    return out


@cont('optfilter')
def k_optfilter(E, st, p, ret, v):
    out = []
    v = E.deref(st, v)
    for b in (0, 1):
        s = st.copy()
        if E.assume(s, v, [b], True, frozenset([0, 1])):
            out += E.resume(s, ret, some(p) if b else NONE)
    return out


@model('option::Option::is_some', 'option::Option::is_none')
def m_is_some(E, st, c):
    want = 1 if c.np.endswith('is_some') else 0
    return sum((E.resume(s, c.ret, cbool(vi == want)) for s, vi in opt_split(E, st, c.args[0])), [])


@model('result::Result::is_ok', 'result::Result::is_err')
def m_is_ok(E, st, c):
    want = 0 if c.np.endswith('is_ok') else 1
    return sum((E.resume(s, c.ret, cbool(vi == want)) for s, vi in res_split(E, st, c.args[0])), [])


@model('option::Option::unwrap', 'option::Option::expect', 'option::Option::unwrap_unchecked')
def m_unwrap(E, st, c):
    out = []
    for s, vi in opt_split(E, st, c.args[0]):
        if vi == 1:
            out += E.resume(s, c.ret, E.payload(s, c.args[0], 1))
        else:
            E.H.on_diverge(E, s, c)
    return out


@model('result::Result::unwrap', 'result::Result::expect')
def m_runwrap(E, st, c):
    out = []
    for s, vi in res_split(E, st, c.args[0]):
        if vi == 0:
            out += E.resume(s, c.ret, E.payload(s, c.args[0], 0))
        else:
            E.H.on_diverge(E, s, c)
    return out


@model('option::Option::unwrap_or', 'option::Option::unwrap_or_else', 'option::Option::unwrap_or_default',
       'option::Option::or', 'option::Option::or_else', 'option::Option::ok_or', 'option::Option::ok_or_else')
def m_unwrap_or(E, st, c):
    n = c.np.split('::')[-1]
    out = []
    for s, vi in opt_split(E, st, c.args[0]):
        if vi == 1:
            p = E.payload(s, c.args[0], 1)
            if n in ('or', 'or_else'):
                p = some(p)
            elif n in ('ok_or', 'ok_or_else'):
                p = ok(p)
            out += E.resume(s, c.ret, p)
        elif n in ('unwrap_or', 'or'):
            out += E.resume(s, c.ret, c.args[1])
        elif n == 'ok_or':
            out += E.resume(s, c.ret, err(c.args[1]))
        elif n == 'ok_or_else':
            out += E.invoke(s, c.args[1], [], ('k', 'wrap_err', None, c.ret), c.line, c.site)
        elif n == 'unwrap_or_default':
            out += E.resume(s, c.ret, default_of(E, c.targs[0]))
        else:
            out += E.invoke(s, c.args[1], [], c.ret, c.line, c.site)
    return out


@model('option::Option::take', 'option::Option::replace', 'option::Option::insert', 'option::Option::get_or_insert_with')
def m_take(E, st, c):
    n = c.np.split('::')[-1]
    old = E.deref(st, c.args[0])
    tgt = c.args[0]
    if n == 'get_or_insert_with':
        return None
    new = NONE if n == 'take' else some(c.args[1])
    if tgt[0] == 'slot':
        E.store(st, tgt, new)
    elif tgt[0] not in ('top', 'agg', 'const'):
        E.store(st, ('term', tgt), new)
    # the value moved out keeps its identity
    if old == tgt and old[0] not in ('agg', 'top', 'const'):
        st2 = st
        return E.resume(st2, c.ret, ('taken', old)) if False else E.resume(st2, c.ret, old)
    return E.resume(st, c.ret, old)


@model('mem::take', 'mem::replace')
def m_memtake(E, st, c):
    old = E.deref(st, c.args[0])
    new = c.args[1] if len(c.args) > 1 else default_of(E, c.targs[0])
    if c.args[0][0] == 'slot':
        E.store(st, c.args[0], new)
    elif c.args[0][0] not in ('top', 'agg', 'const'):
        E.store(st, ('term', c.args[0]), new)
    return E.resume(st, c.ret, old)


@model('mem::drop', 'mem::forget')
def m_drop(E, st, c):
    return E.resume(st, c.ret, UNIT)


@model('result::Result::map', 'result::Result::map_err', 'result::Result::and_then', 'result::Result::or_else',
       'result::Result::unwrap_or_else', 'result::Result::map_or', 'result::Result::map_or_else',
       'result::Result::is_ok_and', 'result::Result::inspect_err', 'result::Result::inspect')
def m_resmap(E, st, c):
    n = c.np.split('::')[-1]
    v = c.args[0]
    out = []
    for s, vi in res_split(E, st, v):
        p = E.payload(s, v, vi)
        f = c.args[-1]
        if vi == 0:
            if n == 'map':
                out += E.invoke(s, f, [p], ('k', 'wrap_ok', None, c.ret), c.line, c.site)
            elif n == 'inspect':
                out += E.invoke(s, f, [p], ('k', 'const', ok(p), c.ret), c.line, c.site)
            elif n in ('and_then', 'map_or', 'map_or_else', 'is_ok_and'):
                out += E.invoke(s, f, [p], c.ret, c.line, c.site)
            elif n == 'unwrap_or_else':
                out += E.resume(s, c.ret, p)
            else:
                out += E.resume(s, c.ret, ok(p))
        else:
            if n == 'map_err':
                out += E.invoke(s, f, [p], ('k', 'wrap_err', None, c.ret), c.line, c.site)
            elif n == 'inspect_err':
                out += E.invoke(s, f, [p], ('k', 'const', err(p), c.ret), c.line, c.site)
            elif n in ('or_else', 'unwrap_or_else'):
                out += E.invoke(s, f, [p], c.ret, c.line, c.site)
            elif n == 'map_or':
                out += E.resume(s, c.ret, c.args[1])
            elif n == 'map_or_else':
                out += E.invoke(s, c.args[1], [p], c.ret, c.line, c.site)
            elif n == 'is_ok_and':
                out += E.resume(s, c.ret, cbool(False))
            else:
                out += E.resume(s, c.ret, err(p))
    return out


@model('result::Result::ok', 'result::Result::err', 'result::Result::unwrap_or', 'result::Result::unwrap_or_default')
def m_resok(E, st, c):
    n = c.np.split('::')[-1]
    out = []
    v = c.args[0]
    for s, vi in res_split(E, st, v):
        p = E.payload(s, v, vi)
        if n == 'ok':
            out += E.resume(s, c.ret, some(p) if vi == 0 else NONE)
        elif n == 'err':
            out += E.resume(s, c.ret, some(p) if vi == 1 else NONE)
        elif vi == 0:
            out += E.resume(s, c.ret, p)
        elif n == 'unwrap_or':
            out += E.resume(s, c.ret, c.args[1])
        else:
            out += E.resume(s, c.ret, default_of(E, c.targs[0]))
    return out


@model('option::Option::transpose', 'option::Option::flatten')
def m_transpose(E, st, c):
    n = c.np.split('::')[-1]
    out = []
    v = c.args[0]
    for s, vi in opt_split(E, st, v):
        if vi == 0:
            out += E.resume(s, c.ret, ok(NONE) if n == 'transpose' else NONE)
            continue
        p = E.payload(s, v, 1)
        if n == 'flatten':
            out += E.resume(s, c.ret, p)
            continue
        for s2, w in res_split(E, s, p):
            q = E.payload(s2, p, w)
            out += E.resume(s2, c.ret, ok(some(q)) if w == 0 else err(q))
    return out


# ---------------------------------------------------------------- defaults
def default_of(E, t):
    if t == ('prim', 'bool'):
        return cbool(False)
    if t[0] == 'prim' and (t[1][0] in 'iu'):
        return cint(0)
    if t[0] == 'adt':
        n = t[1].split('::')[-1]
        if t[1] == OPT:
            return NONE
        if n in ('Vec', 'VecMap', 'IndexMap', 'BTreeMap', 'HashMap', 'VecDeque', 'HashSet', 'BTreeSet'):
            return ('coll', frozenset())
        if n == 'String':
            return cstr('')
    return ('op', 'default', None)


@model('default::Default::default')
def m_default(E, st, c):
    return E.resume(st, c.ret, default_of(E, c.targs[0]))


@model('string::String::new', 'string::String::with_capacity')
def m_strnew(E, st, c):
    return E.resume(st, c.ret, cstr(''))


# ---------------------------------------------------------------- collections under construction
def new_coll(E, st, c):
    return E.resume(st, c.ret, ('coll', frozenset()))


for _n in ('vec::Vec::new', 'vec::Vec::with_capacity', 'vecmap::VecMap::new', 'vecmap::VecMap::with_capacity',
           'indexmap::IndexMap::new', 'indexmap::IndexMap::with_capacity', 'collections::BTreeMap::new',
           'collections::VecDeque::new', 'collections::VecDeque::with_capacity'):
    MODELS[_n] = new_coll


def coll_add(E, st, ptr, item):
    """Adds an item to a collection held in a slot; returns False when it is not a tracked one."""
    v = E.deref(st, ptr)
    if v[0] == 'agg' and v[1] == 'array':
        v = ('coll', frozenset(v[4]))
    if v[0] == 'coll':
        s = v[1] | frozenset([item])
        if len(s) > 12:
            s = frozenset([TOP])
        E.store(st, ptr if ptr[0] == 'slot' else ('term', ptr), ('coll', s))
        return True
    return False


def empty_vec(E, st, c):
    pass


@model('vec::Vec::push', 'collections::VecDeque::push_back')
def m_push(E, st, c):
    item = E.full(st, c.args[1])
    if E.H.on_push(E, st, c, c.args[0], item) if hasattr(E.H, 'on_push') else False:
        return E.resume(st, c.ret, UNIT)
    if c.args[0][0] == 'slot' and coll_add(E, st, c.args[0], item):
        return E.resume(st, c.ret, UNIT)
    if c.args[0][0] == 'fld' and E.deref(st, E.load(st, ('term', c.args[0])))[0] == 'coll':
        v = E.load(st, ('term', c.args[0]))
        E.store(st, ('term', c.args[0]), ('coll', v[1] | frozenset([item])))
        return E.resume(st, c.ret, UNIT)
    return None


@model('vecmap::VecMap::insert', 'indexmap::IndexMap::insert', 'collections::BTreeMap::insert')
def m_mapinsert(E, st, c):
    item = tup(E.full(st, c.args[1]), E.full(st, c.args[2]))
    if hasattr(E.H, 'on_push') and E.H.on_push(E, st, c, c.args[0], item):
        return E.resume(st, c.ret, ('op', 'insert_old', c.site))
    if c.args[0][0] == 'slot' and coll_add(E, st, c.args[0], item):
        r = ('op', 'insert_old', c.site)
        E.invalidate(st, r)
        return E.resume(st, c.ret, r)
    return None


@model('iter::Extend::extend')
def m_extend(E, st, c):
    it = as_iter(E, st, c.args[1])
    if getattr(E.H, 'mapc', False) and E.deref(st, c.args[0]) in (('coll', frozenset()), ('agg', 'array', None, None, ())):
        r = mapped(E, st, it, ('k', 'mapc_store', c.args[0], c.ret))
        if r is not None:
            return r
    return loop_pull(E, st, it, 'k_extend', c.args[0], c.ret)


@cont('mapc_store')
def k_mapc_store(E, st, tgt, ret, v):
    E.store(st, tgt if tgt[0] == 'slot' else ('term', tgt), v)
    return E.resume(st, ret, UNIT)


@cont('k_extend')
def k_extend(E, st, data, ret, v):
    # data = (iter state holder) handled by loop_pull protocol
    tgt = data
    opt, it = v[4]
    if opt == NONE:
        return E.resume(st, ret, UNIT)
    item = E.full(st, opt[4][0])
    done = False
    if tgt[0] == 'slot':
        done = coll_add(E, st, tgt, item)
    if not done and hasattr(E.H, 'on_push'):
        E.H.on_push(E, st, None, tgt, item)
    if not done and tgt[0] == 'slot':
        E.store(st, tgt, TOP)
    return loop_pull(E, st, it, 'k_extend', tgt, ret)


# ---------------------------------------------------------------- iterators
# ('it', 'base', src, flags, phase)   flags: 'full' | 'part' | 'rev'
# ('it', 'map', inner, f) / 'filter' / 'filter_map' / 'enumerate' (inner, idx) / 'chain' (a, b) /
# 'peek' (inner, peeked) / 'once' (v, done) / 'range' (term) / 'zip' (a, b) / 'skip' / 'inspect' ...

def base(src, flags='full'):
    return ('it', 'base', src, flags, 's')


def as_iter(E, st, v):
    v = E.deref(st, v)
    if v[0] == 'it':
        return v
    if v[0] == 'agg' and v[1] == 'adt':
        if len(v[4]) == 1 and v[4][0][0] == 'it' and v[2] != OPT:
            return v[4][0]      # a newtype around an iterator
        nm = v[2].split('::')[-1]
        if nm in ('Range', 'RangeInclusive') and len(v[4]) >= 2:
            return ('it', 'range', v[4][0], v[4][1], nm, 's')
        if v[2] == OPT:
            if v[3] == 0:
                return ('it', 'once', TOP, True)
            return ('it', 'once', v[4][0], False)
    if v[0] == 'agg' and v[1] == 'array':
        return ('it', 'list', v[4], 0)
    if v[0] == 'coll' and getattr(E.H, 'mapc', False):
        v = E.H.uncoll(st, v)
    if v[0] == 'agg' and v[1] == 'adt' and getattr(E.H, 'conc', False) and \
            E.F.find_impl('core::iter::traits::iterator::Iterator', ('adt', v[2], ()), (('adt', v[2], ()),)):
        return ('it', 'user', v)
    if v[0] in ('top',):
        return ('it', 'base', TOP, 'part', 's')
    return base(v)


@model('slice::impl::iter', 'slice::impl::iter_mut', 'vecmap::VecMap::iter', 'vecmap::VecMap::iter_mut',
       'indexmap::IndexMap::iter', 'indexmap::IndexMap::iter_mut', 'iter::IntoIterator::into_iter',
       'vecmap::map::MutableKeys::iter_mut2', 'option::Option::iter', 'option::Option::iter_mut',
       'collections::VecDeque::iter', 'vecmap::VecMap::drain', 'vec::Vec::drain', 'collections::VecDeque::drain')
def m_iter(E, st, c):
    v = E.deref(st, c.args[0])
    t = E.strip(c.targs[0]) if c.targs and c.np.endswith('into_iter') else None
    isopt = (t and t[0] == 'adt' and t[1] == OPT) or c.np.startswith('option::')
    if isopt and v[0] != 'it':
        return sum((E.resume(s, c.ret, ('it', 'once', TOP, True) if vi == 0 else
                             ('it', 'once', E.payload(s, v, 1), False)) for s, vi in opt_split(E, st, v)), [])
    if c.np.endswith('drain') and len(c.args) > 1:
        r = E.deref(st, c.args[1])
        full = r[0] == 'agg' and r[2] and r[2].endswith('RangeFull')
        return E.resume(st, c.ret, base(v, 'full' if full else 'part'))
    return E.resume(st, c.ret, as_iter(E, st, v))


@model('vecmap::VecMap::keys', 'vecmap::VecMap::values', 'vecmap::VecMap::values_mut', 'indexmap::IndexMap::keys',
       'indexmap::IndexMap::values', 'indexmap::IndexMap::values_mut', 'vecmap::VecMap::into_values',
       'indexmap::IndexMap::into_values', 'vecmap::VecMap::into_keys')
def m_values(E, st, c):
    i = 0 if 'key' in c.np else 1
    return E.resume(st, c.ret, ('it', 'proj', as_iter(E, st, c.args[0]), i))


@model('iter::once')
def m_once(E, st, c):
    return E.resume(st, c.ret, ('it', 'once', c.args[0], False))


@model('iter::empty')
def m_empty(E, st, c):
    return E.resume(st, c.ret, ('it', 'once', TOP, True))


@model('str::impl::chars', 'str::impl::lines', 'str::impl::bytes', 'str::impl::char_indices', 'str::impl::split',
       'slice::impl::windows', 'slice::impl::chunks')
def m_striter(E, st, c):
    n = c.np.split('::')[-1]
    return E.resume(st, c.ret, base(('op', n, None) + tuple(E.full(st, a) for a in c.args)))


@model('iter::Iterator::map', 'iter::Iterator::filter', 'iter::Iterator::filter_map', 'iter::Iterator::inspect',
       'iter::Iterator::take_while', 'iter::Iterator::skip_while', 'iter::Iterator::map_while',
       'iter::Iterator::flat_map')
def m_adapt(E, st, c):
    return E.resume(st, c.ret, ('it', c.np.split('::')[-1], as_iter(E, st, c.args[0]), c.args[1]))


@model('iter::Iterator::enumerate')
def m_enum(E, st, c):
    return E.resume(st, c.ret, ('it', 'enumerate', as_iter(E, st, c.args[0]), cint(0)))


@model('iter::Iterator::rev')
def m_rev(E, st, c):
    return E.resume(st, c.ret, reflag(as_iter(E, st, c.args[0]), 'rev'))


@model('iter::Iterator::skip', 'iter::Iterator::take', 'iter::Iterator::step_by')
def m_skip(E, st, c):
    it = as_iter(E, st, c.args[0])
    n = E.deref(st, c.args[1])
    if c.np.endswith('skip') and n == cint(0):
        return E.resume(st, c.ret, it)
    return E.resume(st, c.ret, ('it', 'bounded', reflag(it, 'part')))


@model('iter::Iterator::chain')
def m_chain(E, st, c):
    return E.resume(st, c.ret, ('it', 'chain', as_iter(E, st, c.args[0]), as_iter(E, st, c.args[1])))


@model('iter::Iterator::zip')
def m_zip(E, st, c):
    return E.resume(st, c.ret, ('it', 'zip', as_iter(E, st, c.args[0]), as_iter(E, st, c.args[1])))


@model('iter::Iterator::peekable')
def m_peekable(E, st, c):
    return E.resume(st, c.ret, ('it', 'peek', as_iter(E, st, c.args[0]), ('none',)))


def reflag(it, f):
    if it[1] == 'base':
        if it[3] == 'part':
            return it
        if f == 'rev' and it[3] == 'rev':
            f = 'full'
        return it[:3] + (f,) + it[4:]
    if it[1] == 'range':
        return ('it', 'base', ('op', 'range', None, it[2], it[3]), 'part', 's')
    return it[:2] + tuple(reflag(x, f) if isinstance(x, tuple) and x and x[0] == 'it' else x for x in it[2:])


def concrete(it):
    """The iterator runs over a sequence of known length."""
    if it[1] in ('list', 'once', 'user'):
        return True
    if it[1] == 'range':
        return it[2][0] == 'const' and it[3][0] == 'const'
    if it[1] == 'base':
        return False
    if it[1] in ('chain', 'zip'):
        return concrete(it[2]) and concrete(it[3])
    return it[2][0] == 'it' and concrete(it[2])


def pull(E, st, it, ret):
    """Pulls one item; resumes ret with tuple(option item, new iterator)."""
    k = it[1]
    if k == 'base':
        _, _, src, flags, phase = it
        if phase == 'x':
            return E.resume(st, ret, tup(NONE, it))
        if phase == 'e':
            E.H.on_elem_end(E, st, src[1] if src[0] == 'mapc' else src)
        if src[0] == 'coll':
            out = []
            if phase == 's' or True:
                s = st.copy()
                E.H.on_iter_end(E, s, src, flags)
                out += E.resume(s, ret, tup(NONE, it[:4] + ('x',)))
            for x in sorted(src[1], key=repr):
                s = st.copy()
                out += E.resume(s, ret, tup(some(x), it[:4] + ('e',)))
            return out
        if src[0] == 'mapc':
            out = []
            E.H.on_elem_start(E, st, src[1])
            s = st.copy()
            if phase != 's' or E.assume(s, ('empty', src[1]), [1], True, frozenset([0, 1])):
                E.H.on_iter_end(E, s, src[1], flags)
                out += E.resume(s, ret, tup(NONE, it[:4] + ('x',)))
            if phase == 's' and not E.assume(st, ('empty', src[1]), [0], True, frozenset([0, 1])):
                return out
            out += E.resume(st.copy(), ret, tup(some(src[2]), it[:4] + ('e',)))
            return out
        out = []
        s = st.copy()
        # a non-empty fact (is_empty() == false, len != 0) excludes an immediate end
        ne = st.facts.get(('empty', src))
        if not (phase == 's' and ne == ('in', frozenset([0]))):
            if phase != 's' or E.assume(s, ('empty', src), [1], True, frozenset([0, 1])):
                E.H.on_iter_end(E, s, src, flags)
                out += E.resume(s, ret, tup(NONE, it[:4] + ('x',)))
        s = st.copy()
        if phase != 's' or E.assume(s, ('empty', src), [0], True, frozenset([0, 1])):
            e = ('elem', src)
            E.invalidate(s, e)
            E.H.on_elem_start(E, s, src)
            v = e if src[0] != 'top' else TOP
            out += E.resume(s, ret, tup(some(v), it[:4] + ('e',)))
        return out
    if k == 'once':
        if it[3]:
            return E.resume(st, ret, tup(NONE, it))
        return E.resume(st, ret, tup(some(it[2]), ('it', 'once', TOP, True)))
    if k == 'list':
        if it[3] >= len(it[2]):
            return E.resume(st, ret, tup(NONE, it))
        return E.resume(st, ret, tup(some(it[2][it[3]]), it[:3] + (it[3] + 1,)))
    if k == 'user':
        return E.H.pull_user(E, st, it, ret)
    if k == 'range':
        _, _, lo, hi, nm, phase = it
        hi2 = E.deref(st, hi)
        if getattr(E.H, 'conc', False) and lo[0] == 'const' and hi2[0] == 'const':
            if lo[2] + (nm == 'Range') > hi2[2]:
                return E.resume(st, ret, tup(NONE, it))
            return E.resume(st, ret, tup(some(lo), ('it', 'range', cint(lo[2] + 1), hi2, nm, 'e')))
        src = hi2[1] if hi2[0] == 'len' and lo == cint(0) and nm == 'Range' else None
        if src is not None:
            if phase == 'e':
                E.H.on_elem_end(E, st, src)
            out = []
            s = st.copy()
            if phase != 's' or E.assume(s, ('empty', src), [1], True, frozenset([0, 1])):
                E.H.on_iter_end(E, s, src, 'full')
                out += E.resume(s, ret, tup(NONE, it[:5] + ('x',)))
            s = st.copy()
            if phase != 's' or E.assume(s, ('empty', src), [0], True, frozenset([0, 1])):
                E.invalidate(s, ('elem', src))
                E.H.on_elem_start(E, s, src)
                out += E.resume(s, ret, tup(some(('iterix', src)), it[:5] + ('e',)))
            return out
        s = st.copy()
        return E.resume(s, ret, tup(NONE, it)) + E.resume(st.copy(), ret, tup(some(TOP), it))
    if k in ('map', 'filter', 'filter_map', 'inspect', 'take_while', 'skip_while', 'map_while', 'flat_map'):
        return pull(E, st, it[2], ('k', 'pull_' + ('fm' if k in ('filter', 'filter_map', 'inspect', 'take_while',
                                                                   'skip_while', 'map_while', 'flat_map') else 'map'),
                                   (k, it[3]), ret))
    if k == 'proj':
        return pull(E, st, it[2], ('k', 'pull_proj', it[3], ret))
    if k == 'enumerate':
        return pull(E, st, it[2], ('k', 'pull_enum', it[3], ret))
    if k == 'bounded':
        return pull(E, st, it[2], ('k', 'pull_bounded', None, ret))
    if k == 'chain':
        return pull(E, st, it[2], ('k', 'pull_chain', it[3], ret))
    if k == 'zip':
        return pull(E, st, it[2], ('k', 'pull_zip', it[3], ret))
    if k == 'peek':
        if it[3] != ('none',):
            return E.resume(st, ret, tup(it[3], ('it', 'peek', it[2], ('none',))))
        return pull(E, st, it[2], ('k', 'pull_peek', None, ret))
    return E.resume(st, ret, tup(TOP, it))


@cont('pull_map')
def k_pull_map(E, st, data, ret, v):
    opt, inner = v[4]
    nit = ('it', 'map', inner, data[1])
    if opt == NONE:
        return E.resume(st, ret, tup(NONE, nit))
    return E.invoke(st, data[1], [opt[4][0]], ('k', 'pull_map2', nit, ret))


@cont('pull_map2')
def k_pull_map2(E, st, nit, ret, v):
    return E.resume(st, ret, tup(some(v), nit))


@cont('pull_fm')
def k_pull_fm(E, st, data, ret, v):
    opt, inner = v[4]
    nit = ('it', data[0], inner, data[1])
    if opt == NONE:
        return E.resume(st, ret, tup(NONE, nit))
    return E.invoke(st, data[1], [opt[4][0]], ('k', 'pull_fm2', (nit, opt[4][0]), ret))


@cont('pull_fm2')
def k_pull_fm2(E, st, data, ret, v):
    nit, item = data
    k = nit[1]
    v = E.deref(st, v)
    out = []
    if k == 'inspect':
        return E.resume(st, ret, tup(some(item), nit))
    if k in ('filter', 'take_while', 'skip_while'):
        for b in (0, 1):
            s = st.copy()
            if not E.assume(s, v, [b], True, frozenset([0, 1])):
                continue
            keep = b == 1 if k != 'skip_while' else b == 0
            if keep:
                n = nit if k != 'skip_while' else nit[2]
                out += E.resume(s, ret, tup(some(item), n))
            elif k == 'take_while':
                out += E.resume(s, ret, tup(NONE, ('it', 'once', TOP, True)))
            else:
                out += again(E, s, nit, ret)
        return out
    if k in ('filter_map', 'map_while'):
        for s, vi in E.split(st, v, OPT):
            if vi == 1:
                out += E.resume(s, ret, tup(some(E.payload(s, v, 1)), nit))
            elif k == 'map_while':
                out += E.resume(s, ret, tup(NONE, ('it', 'once', TOP, True)))
            else:
                out += again(E, s, nit, ret)
        return out
    return E.resume(st.copy(), ret, tup(some(TOP), nit)) + E.resume(st, ret, tup(NONE, nit))


def again(E, st, it, ret):
    """Re-pulls an iterator, guarding against unbounded recursion inside one step."""
    key = ('again', st.stack, it, ret, frozenset(st.env.items()), frozenset(st.facts.items()), st.mon,
           frozenset(st.mem.items()))
    if key in E.visited:
        return []
    E.visited.add(key)
    return pull(E, st, it, ret)


@cont('pull_proj')
def k_pull_proj(E, st, i, ret, v):
    opt, inner = v[4]
    nit = ('it', 'proj', inner, i)
    if opt == NONE:
        return E.resume(st, ret, tup(NONE, nit))
    return E.resume(st, ret, tup(some(E.fieldof(st, opt[4][0], None, i)), nit))


@cont('pull_enum')
def k_pull_enum(E, st, idx, ret, v):
    opt, inner = v[4]
    if opt == NONE:
        return E.resume(st, ret, tup(NONE, ('it', 'enumerate', inner, idx)))
    nx = cint(idx[2] + 1) if getattr(E.H, 'conc', False) and idx[0] == 'const' and concrete(inner) else ('pos',)
    return E.resume(st, ret, tup(some(tup(idx, opt[4][0])), ('it', 'enumerate', inner, nx)))


@cont('pull_bounded')
def k_pull_bounded(E, st, data, ret, v):
    opt, inner = v[4]
    out = E.resume(st.copy(), ret, tup(opt, ('it', 'bounded', inner)))
    return out + E.resume(st, ret, tup(NONE, ('it', 'once', TOP, True))) if opt != NONE else out


@cont('pull_chain')
def k_pull_chain(E, st, b, ret, v):
    opt, inner = v[4]
    if opt == NONE:
        return pull(E, st, b, ret)
    return E.resume(st, ret, tup(opt, ('it', 'chain', inner, b)))


@cont('pull_zip')
def k_pull_zip(E, st, b, ret, v):
    opt, inner = v[4]
    if opt == NONE:
        return E.resume(st, ret, tup(NONE, ('it', 'zip', inner, b)))
    return pull(E, st, b, ('k', 'pull_zip2', (opt[4][0], inner), ret))


@cont('pull_zip2')
def k_pull_zip2(E, st, data, ret, v):
    opt, inner = v[4]
    x, a = data
    nit = ('it', 'zip', a, inner)
    if opt == NONE:
        return E.resume(st, ret, tup(NONE, nit))
    return E.resume(st, ret, tup(some(tup(x, opt[4][0])), nit))


@cont('pull_peek')
def k_pull_peek(E, st, data, ret, v):
    opt, inner = v[4]
    return E.resume(st, ret, tup(opt, ('it', 'peek', inner, ('none',))))


@model('iter::Peekable::peek', 'iter::Peekable::peek_mut')
def m_peek(E, st, c):
    it = E.deref(st, c.args[0])
    if it[0] != 'it' or it[1] != 'peek':
        return None
    if it[3] != ('none',):
        return E.resume(st, c.ret, it[3])
    return pull(E, st, it[2], ('k', 'peek2', c.args[0], c.ret))


@cont('peek2')
def k_peek2(E, st, ptr, ret, v):
    opt, inner = v[4]
    if ptr[0] == 'slot':
        E.store(st, ptr, ('it', 'peek', inner, opt))
    return E.resume(st, ret, opt)


@model('iter::Iterator::next', 'iter::DoubleEndedIterator::next_back')
def m_next(E, st, c):
    ptr = c.args[0]
    it = E.deref(st, ptr)
    if it[0] != 'it':
        if it[0] == 'top':
            return E.resume(st.copy(), c.ret, NONE) + E.resume(st, c.ret, some(TOP))
        # an iterator-typed parameter or field: iterates the term itself
        t = E.typeof(it)
        st2 = st
        ph = st.mem.get(('iterstate', it), 's')
        return pull(E, st2, ('it', 'base', it, 'full', ph), ('k', 'next_sym', it, c.ret))
    if c.np.endswith('next_back'):
        it = reflag(it, 'part')
    return pull(E, st, it, ('k', 'next2', ptr, c.ret))


@cont('next_sym')
def k_next_sym(E, st, t, ret, v):
    opt, it = v[4]
    st.mem[('iterstate', t)] = it[4]
    return E.resume(st, ret, opt)


@cont('next2')
def k_next2(E, st, ptr, ret, v):
    opt, it = v[4]
    if ptr[0] == 'slot':
        E.store(st, ptr, it)
    elif ptr[0] not in ('it', 'agg', 'top', 'const'):
        st.mem[ptr] = it
    return E.resume(st, ret, opt)


def loop_pull(E, st, it, k, data, ret):
    key = ('loop', st.stack, it, k, data, ret, frozenset(st.env.items()), frozenset(st.facts.items()), st.mon,
           frozenset(st.mem.items()))
    if key in E.visited:
        return []
    E.visited.add(key)
    n = E.counts.get(('loop', st.stack, k), 0) + 1
    E.counts[('loop', st.stack, k)] = n
    if n > 20 * E.H.klimit:
        from engine import Limit
        raise Limit('iterator loop does not converge')
    return pull(E, st, it, ('k', k, data, ret))


@model('iter::Iterator::for_each', 'iter::Iterator::try_for_each', 'iter::Iterator::all', 'iter::Iterator::any',
       'iter::Iterator::find', 'iter::Iterator::find_map', 'iter::Iterator::position')
def m_for_each(E, st, c):
    n = c.np.split('::')[-1]
    itv = E.deref(st, c.args[0])
    it = as_iter(E, st, c.args[0])
    return loop_pull(E, st, it, 'fe_item', (n, c.args[1], c.line), c.ret)


@cont('fe_item')
def k_fe_item(E, st, data, ret, v):
    n, f, line = data
    opt, it = v[4]
    if opt == NONE:
        r = {'for_each': UNIT, 'try_for_each': ok(UNIT), 'all': cbool(True), 'any': cbool(False)}.get(n, NONE)
        return E.resume(st, ret, r)
    item = opt[4][0]
    return E.invoke(st, f, [item], ('k', 'fe_next', (n, f, line, it, item), ret), line)


@cont('fe_next')
def k_fe_next(E, st, data, ret, v):
    n, f, line, it, item = data
    d2 = (n, f, line)
    v = E.deref(st, v)
    if n == 'for_each':
        return loop_pull(E, st, it, 'fe_item', d2, ret)
    out = []
    if n == 'try_for_each':
        for s, vi in E.split(st, v, RES):
            if vi == 0:
                out += loop_pull(E, s, it, 'fe_item', d2, ret)
            else:
                out += E.resume(s, ret, err(E.payload(s, v, 1)))
        return out
    if n == 'find_map':
        for s, vi in E.split(st, v, OPT):
            if vi == 1:
                out += E.resume(s, ret, some(E.payload(s, v, 1)))
            else:
                out += loop_pull(E, s, it, 'fe_item', d2, ret)
        return out
    for b in (0, 1):
        s = st.copy()
        if not E.assume(s, v, [b], True, frozenset([0, 1])):
            continue
        stop = (b == 1) if n in ('any', 'find', 'position') else (b == 0)
        if stop:
            r = {'all': cbool(False), 'any': cbool(True), 'find': some(item), 'position': some(TOP)}[n]
            out += E.resume(s, ret, r)
        else:
            out += loop_pull(E, s, it, 'fe_item', d2, ret)
    return out


@model('iter::Iterator::fold', 'iter::Iterator::try_fold')
def m_fold(E, st, c):
    it = as_iter(E, st, c.args[0])
    n = c.np.split('::')[-1]
    return loop_pull(E, st, it, 'fold_item', (n, c.args[2], c.args[1], c.line), c.ret)


@cont('fold_item')
def k_fold_item(E, st, data, ret, v):
    n, f, acc, line = data
    opt, it = v[4]
    if opt == NONE:
        return E.resume(st, ret, acc if n == 'fold' else ok(acc))
    return E.invoke(st, f, [acc, opt[4][0]], ('k', 'fold_next', (n, f, line, it), ret), line)


@cont('fold_next')
def k_fold_next(E, st, data, ret, v):
    n, f, line, it = data
    if n == 'fold':
        return loop_pull(E, st, it, 'fold_item', (n, f, E.full(st, v), line), ret)
    out = []
    for s, vi in E.split(st, v, RES):
        if vi == 0:
            out += loop_pull(E, s, it, 'fold_item', (n, f, E.payload(s, v, 0), line), ret)
        else:
            out += E.resume(s, ret, err(E.payload(s, v, 1)))
    return out


@model('iter::Iterator::collect', 'iter::FromIterator::from_iter')
def m_collect(E, st, c):
    it = as_iter(E, st, c.args[0])
    dst = c.targs[1] if c.np.endswith('collect') else c.targs[0]
    # a workspace FromIterator impl is interpreted
    if c.np.endswith('collect') and dst[0] == 'adt' and dst[1] in E.F.adts:
        from engine import Call
        n = Call()
        n.id, n.path, n.np = 'core::iter::traits::collect::FromIterator::from_iter', 'std::iter::FromIterator::from_iter', 'iter::FromIterator::from_iter'
        ity = None
        for im in E.F.by_trait.get('core::iter::traits::collect::FromIterator', ()):
            if im['selfty'][0] == 'adt' and im['selfty'][1] == dst[1]:
                fid = [x['id'] for x in im['items'] if x['name'] == 'from_iter'][0]
                m = {}
                E.F.unify(im['selfty'], dst, m)
                if sum(1 for f in st.stack if f.fid == fid) == 0:
                    return E.enter(st, fid, tuple(sorted(m.items())), [c.args[0]], c.ret, c.line)
    kind = 'coll'
    r = mapped(E, st, it, c.ret) if getattr(E.H, 'mapc', False) and (dst[0] != 'adt' or dst[1] not in (RES, OPT)) else None
    if r is not None:
        return r
    if dst[0] == 'adt' and dst[1] == RES:
        kind = 'res'
    elif dst[0] == 'adt' and dst[1] == OPT:
        kind = 'opt'
    return loop_pull(E, st, it, 'coll_item', (kind, frozenset()), c.ret)


def linear(it):
    """The source of a pipeline which yields exactly one item per element of the source, in order."""
    while it[0] == 'it' and it[1] in ('map', 'peek', 'proj'):
        if it[1] == 'peek' and it[3] != ('none',):
            return None
        it = it[2]
    if it[0] == 'it' and it[1] == 'base' and it[3] in ('full', 'rev') and it[4] == 's' and it[2][0] not in ('top', 'coll'):
        return it[2], it[3]
    return None


def mapped(E, st, it, ret):
    l = linear(it)
    if l is None:
        if hasattr(E.H, 'on_nonlinear'):
            E.H.on_nonlinear(E, st, it)
        return None
    return pull(E, st, it, ('k', 'mapc_item', l, ret))


@cont('mapc_item')
def k_mapc(E, st, l, ret, v):
    opt, it = v[4]
    if opt == NONE:
        return []
    src, flag = l
    item = E.full(st, opt[4][0])
    # the collection may still be empty
    st.facts.pop(('empty', src), None)
    r = mapc(src, item, flag)
    return E.resume(st, ret, r)


def mapc(src, item, flag):
    s, body, f0 = src, item, 'full'
    if src[0] == 'mapc':
        # body is already expressed in terms of the innermost source
        s, f0 = src[1], src[3]
    f = 'full' if f0 == flag else 'rev'
    if body == ('elem', s) and f == 'full':
        return s
    return ('mapc', s, body, f)


@cont('coll_item')
def k_coll_item(E, st, data, ret, v):
    kind, acc = data
    opt, it = v[4]
    if opt == NONE:
        r = ('coll', acc)
        r = r if kind == 'coll' else (ok(r) if kind == 'res' else some(r))
        return E.resume(st, ret, r)
    item = E.full(st, opt[4][0])

    def add(x):
        s = acc | frozenset([x])
        return s if len(s) <= 12 else frozenset([TOP])
    if kind == 'coll':
        return loop_pull(E, st, it, 'coll_item', (kind, add(item)), ret)
    out = []
    for s, vi in E.split(st, item, RES if kind == 'res' else OPT):
        if kind == 'res' and vi == 0:
            out += loop_pull(E, s, it, 'coll_item', (kind, add(E.payload(s, item, 0))), ret)
        elif kind == 'res':
            out += E.resume(s, ret, err(E.payload(s, item, 1)))
        elif vi == 1:
            out += loop_pull(E, s, it, 'coll_item', (kind, add(E.payload(s, item, 1))), ret)
        else:
            out += E.resume(s, ret, NONE)
    return out


@model('iter::Iterator::count', 'iter::Iterator::last')
def m_count(E, st, c):
    it = as_iter(E, st, c.args[0])
    return loop_pull(E, st, it, 'cnt_item', c.np, c.ret)


@cont('cnt_item')
def k_cnt(E, st, data, ret, v):
    opt, it = v[4]
    if opt == NONE:
        return E.resume(st, ret, ('op', 'count', None))
    return loop_pull(E, st, it, 'cnt_item', data, ret)


# ---------------------------------------------------------------- len / emptiness / access
@model('vec::Vec::len', 'slice::impl::len', 'vecmap::VecMap::len', 'indexmap::IndexMap::len', 'str::impl::len',
       'string::String::len', 'collections::VecDeque::len', 'iter::ExactSizeIterator::len')
def m_len(E, st, c):
    v = E.full(st, c.args[0])
    if v[0] == 'it':
        return E.resume(st, c.ret, TOP if v[1] != 'base' else E.lenof(v[2]))
    return E.resume(st, c.ret, E.lenof(v) if v[0] != 'coll' else TOP)


@model('vec::Vec::is_empty', 'slice::impl::is_empty', 'vecmap::VecMap::is_empty', 'indexmap::IndexMap::is_empty',
       'str::impl::is_empty', 'string::String::is_empty', 'collections::VecDeque::is_empty')
def m_isempty(E, st, c):
    v = E.full(st, c.args[0])
    if v[0] == 'const' and v[1] == 'str':
        return E.resume(st, c.ret, cbool(v[2] == ''))
    if v[0] in ('top', 'undef', 'coll'):
        return E.resume(st, c.ret, TOP if v != ('coll', frozenset()) else cbool(True))
    out = []
    for b in (0, 1):
        s = st.copy()
        if E.assume(s, ('empty', v), [b], True, frozenset([0, 1])):
            out += E.resume(s, c.ret, cbool(b))
    return out


@model('ops::Index::index', 'ops::IndexMut::index_mut')
def m_index(E, st, c):
    v = E.deref(st, c.args[0])
    i = E.deref(st, c.args[1])
    if i[0] in ('const', 'iterix', 'pos'):
        return E.resume(st, c.ret, E.elemof(st, v, i))
    return None


@model('slice::impl::first', 'slice::impl::last', 'slice::impl::first_mut', 'slice::impl::last_mut')
def m_first(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] in ('top', 'coll', 'undef'):
        return E.resume(st, c.ret, TOP)
    i = 0 if 'first' in c.np else -1
    out = []
    s = st.copy()
    if E.assume(s, ('empty', v), [1], True, frozenset([0, 1])):
        out += E.resume(s, c.ret, NONE)
    s = st.copy()
    if E.assume(s, ('empty', v), [0], True, frozenset([0, 1])):
        out += E.resume(s, c.ret, some(('idx', v, i)))
    return out


@model('thread::LocalKey::with')
def m_with(E, st, c):
    key = E.full(st, c.args[0])
    return E.invoke(st, c.args[1], [key], c.ret, c.line, c.site)


@model('bool::impl::then', 'bool::impl::then_some')
def m_then(E, st, c):
    out = []
    v = E.deref(st, c.args[0])
    for b in (0, 1):
        s = st.copy()
        if not E.assume(s, v, [b], True, frozenset([0, 1])):
            continue
        if not b:
            out += E.resume(s, c.ret, NONE)
        elif c.np.endswith('then_some'):
            out += E.resume(s, c.ret, some(c.args[1]))
        else:
            out += E.invoke(s, c.args[1], [], ('k', 'wrap_some', None, c.ret), c.line, c.site)
    return out


def ground_eq(a, b):
    """Equality of options, results and tuples of known constants."""
    if a[0] == 'const' and b[0] == 'const' and a[1] == b[1]:
        return a == b
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == b[1] and len(a[4]) == len(b[4]) and a[3] == b[3] and a[2] == b[2] and \
            (a[1] == 'tuple' or a[1] == 'adt' and str(a[2]).startswith('core::')):
        r = [ground_eq(x, y) for x, y in zip(a[4], b[4])]
        return False if False in r else None if None in r else True
    return None


@model('cmp::PartialEq::eq', 'cmp::PartialEq::ne')
def m_eq(E, st, c):
    a, b = E.full(st, c.args[0]), E.full(st, c.args[1])
    ne = c.np.endswith('ne')
    if a[0] == 'const' and b[0] == 'const':
        return E.resume(st, c.ret, cbool((a == b) != ne))
    if a[0] == 'agg' and b[0] == 'agg' and a[1] == 'adt' and b[1] == 'adt' and a[2] == b[2] and a[3] != b[3]:
        return E.resume(st, c.ret, cbool(ne))
    k = ground_eq(a, b)
    if k is not None:
        return E.resume(st, c.ret, cbool(k != ne))
    r = ('op', 'Eq', a, b) if a[0] != 'top' and b[0] != 'top' else TOP
    if ne and r != TOP:
        r = ('op', 'Not', r)
    return E.resume(st, c.ret, r)


@model('vec::Vec::reserve', 'vec::Vec::reserve_exact', 'vec::Vec::shrink_to_fit', 'string::String::reserve',
       'vecmap::VecMap::reserve', 'indexmap::IndexMap::reserve', 'vecmap::VecMap::shrink_to_fit')
def m_reserve(E, st, c):
    return E.resume(st, c.ret, UNIT)


@model('iter::Iterator::size_hint')
def m_size_hint(E, st, c):
    return E.resume(st, c.ret, tup(TOP, TOP))


def int_method(E, st, c):
    """Methods of small integers that are known."""
    xs = [E.deref(st, a) for a in c.args]
    if not xs or any(x[0] != 'const' or x[1] != 'int' for x in xs):
        return None
    t = E.strip(c.argtys[0]) if c.argtys[0] is not None else None
    n = c.np.split('::')[-1]
    x = xs[0][2]
    y = xs[1][2] if len(xs) > 1 else 0
    signed = t is not None and t[0] == 'prim' and t[1].startswith('i')
    for pre in ('checked_', 'saturating_', 'wrapping_'):
        if n.startswith(pre) and n[len(pre):] in ('add', 'sub', 'mul') and len(xs) == 2:
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[n[len(pre):]]
            if abs(r) >= 128:
                return None
            if r < 0 and not signed:
                if pre == 'wrapping_':
                    return None
                return E.resume(st, c.ret, NONE if pre == 'checked_' else cint(0))
            return E.resume(st, c.ret, some(cint(r)) if pre == 'checked_' else cint(r))
    if n in ('min', 'max') and len(xs) == 2:
        return E.resume(st, c.ret, cint(min(x, y) if n == 'min' else max(x, y)))
    if n == 'abs_diff':
        return E.resume(st, c.ret, cint(abs(x - y)))
    return None
