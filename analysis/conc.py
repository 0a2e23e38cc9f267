"""Sequences of known length: vectors, deques, maps, iterator pipelines and texts are followed element by element."""
from common import *
import models
from models import as_iter, concrete, loop_pull


def arr(xs):
    return ('agg', 'array', None, None, tuple(xs))


def isarr(v):
    return v[0] == 'agg' and v[1] == 'array'


ITER = 'core::iter::traits::iterator::Iterator'
SEQT = ('Vec', 'VecDeque', 'VecMap', 'IndexMap', 'HashMap', 'BTreeMap', 'HashSet')
MAPT = ('VecMap', 'IndexMap', 'HashMap', 'BTreeMap')
NOVAL = object()


class Conc(Out):
    conc = True
    keep_cells = True
    max_rec = 8
    max_inline = 80
    klimit = 200000
    max_states = 400000

    # ---- iteration
    def pull_user(self, E, st, it, ret):
        n = 0
        while ('user', n) in st.env:
            n += 1
        st.env[('user', n)] = it[2]
        ty = ('adt', it[2][2], ())
        return self.callto(E, st, ITER + '::next', 'iter::Iterator::next', ITER, (ty,), [('slot', 'user', n, ())],
                           ('k', 'conc_user', n, ret))

    def callto(self, E, st, id, np, trait, targs, args, ret):
        c = Call()
        c.id, c.path, c.np = id, 'std::' + np, np
        c.targs, c.trait, c.res = targs, trait, None
        c.args, c.ret, c.line, c.fid = args, ret, 0, None
        c.argtys, c.site = tuple(None for _ in args), ('call', id)
        return E.call(st, c)

    def same(self, E, st, a, b):
        """Equality of two keys: distinct unknown names are distinct."""
        return a == b

    def mapidx(self, E, st, xs, k):
        k = self.keyterm(k)
        for i, x in enumerate(xs):
            if x[0] == 'agg' and x[4] and self.same(E, st, self.keyterm(x[4][0]), k):
                return i
        return None

    def keyterm(self, k):
        while k[0] == 'agg' and k[1] == 'adt' and len(k[4]) == 1:
            k = k[4][0]
        if k[0] == 'toks' and len(k[1]) == 1:
            k = k[1][0][1] if k[1][0][0] == 'val' else cstr(k[1][0][1])
        return k

    def on_call(self, E, st, c):
        if self.ucall:
            r = self.ucall(E, st, c)
            if r is not None:
                return r
        r = self.conc_call(E, st, c)
        if r is not None:
            return r
        uc, self.ucall = self.ucall, None
        try:
            return Out.on_call(self, E, st, c)
        finally:
            self.ucall = uc

    def conc_call(self, E, st, c):
        np, a = c.np, c.args
        n = np.split('::')[-1]
        R = lambda v: E.resume(st, c.ret, v)
        if np in ('iter::Iterator::collect', 'iter::FromIterator::from_iter') and E.target(st, c) is None:
            dst = c.targs[1] if n == 'collect' else c.targs[0]
            it = as_iter(E, st, a[0])
            if concrete(it):
                ity = E.F.normalize(('alias', ITER + '::Item', (E.strip(c.targs[0]),))) if n == 'collect' else c.targs[1] if len(c.targs) > 1 else None
                return self.collect(E, st, it, dst, c.ret, ity)
            return None
        if n in ('extend', 'append', 'extend_from_slice') and np.startswith(('iter::', 'vec::', 'string::', 'vecmap::', 'indexmap::', 'collections::')) \
                and a[0][0] == 'slot' and E.target(st, c) is None:
            v = E.deref(st, a[0])
            x = E.full(st, a[1])
            if v[0] == 'toks' or v[:2] == ('const', 'str'):
                it = as_iter(E, st, a[1])
                return loop_pull(E, st, it, 'conc_text', a[0], c.ret) if n == 'extend' and concrete(it) else None
            if isarr(v) and x[0] == 'agg' and x[1] == 'adt' and x[2] in E.F.adts and not E.F.find_impl(ITER, ('adt', x[2], ()), (('adt', x[2], ()),)):
                # a workspace collection is turned into an iterator first
                return self.callto(E, st, 'core::iter::traits::collect::IntoIterator::into_iter', 'iter::IntoIterator::into_iter',
                                   'core::iter::traits::collect::IntoIterator', (('adt', x[2], ()),), [x], ('k', 'conc_into', c.args[0], c.ret))
            it = as_iter(E, st, a[1])
            if isarr(v) and concrete(it):
                ismap = c.targs and E.strip(c.targs[0])[0] == 'adt' and E.strip(c.targs[0])[1].split('::')[-1] in MAPT
                return loop_pull(E, st, it, 'conc_extend', (a[0], v[4], bool(ismap)), c.ret)
            return None
        if np in ('default::Default::default', 'mem::take') and c.targs and c.targs[0][0] == 'adt' and \
                c.targs[0][1].split('::')[-1] in SEQT:
            if n == 'default':
                return R(arr(()))
            v = E.full(st, a[0])
            E.store(st, a[0], arr(()))
            return R(v)
        if n in ('skip', 'take') and np.startswith('iter::Iterator::'):
            it = as_iter(E, st, a[0])
            k = E.deref(st, a[1])
            if it[1] == 'list' and k[0] == 'const':
                xs = it[2][it[3]:]
                return R(('it', 'list', xs[k[2]:] if n == 'skip' else xs[:k[2]], 0))
            return None
        if n == 'rev' and np.startswith('iter::Iterator'):
            it = as_iter(E, st, a[0])
            if it[1] == 'list':
                return R(('it', 'list', tuple(reversed(it[2][it[3]:])), 0))
            return None
        if np.startswith(('vec::', 'slice::', 'collections::', 'vecmap::', 'indexmap::', 'iter::', 'ops::Index', 'map::')) and a:
            return self.seq_call(E, st, c, np, n, a, R)
        if np.startswith('vec_deque::') or 'VecDeque' in np:
            return self.seq_call(E, st, c, np, n, a, R)
        return None

    def seq_call(self, E, st, c, np, n, a, R):
        if n in ('new', 'with_capacity') and 'Vec' in np or n in ('new', 'with_capacity') and ('Map' in np or 'Set' in np):
            return R(arr(()))
        loc = a[0]
        while loc[0] == 'slot' and E.load(st, loc)[0] == 'slot':
            loc = E.load(st, loc)
        v = E.deref(st, loc)
        slot = loc if loc[0] == 'slot' else None
        if v[0] == 'agg' and v[1] == 'adt' and len(v[4]) == 1 and v[4][0][0] == 'agg' and v[4][0][1] == 'entry':
            v = v[4][0]
        if v[0] == 'agg' and v[1] == 'entry':
            return self.entry_call(E, st, c, n, v, a, R)
        if not isarr(v):
            return None
        if c.trait is not None and E.target(st, c) is not None:
            return None
        xs = v[4]
        ismap = 'Map' in np and 'MutableKeys' not in np

        def put(ys):
            if slot is None:
                return False
            E.store(st, slot, arr(ys))
            return True

        def ref(i, *path):
            if slot is not None and n.endswith('mut') or n.endswith('mut2'):
                return ('slot', slot[1], slot[2], slot[3] + ((None, i),) + tuple(path)) if slot else xs[i]
            x = xs[i]
            for p in path:
                x = E.fieldof(st, x, p[0], p[1])
            return x
        if n == 'iter_mut' and xs and all(x[0] == 'slot' for x in xs):
            return R(('it', 'list', xs, 0))
        if n in ('iter_mut', 'iter_mut2') and slot is not None:
            if ismap or n == 'iter_mut2':
                return R(('it', 'list', tuple(tup(xs[i][4][0] if n == 'iter_mut' else ('slot', slot[1], slot[2], slot[3] + ((None, i), (None, 0))),
                                                  ('slot', slot[1], slot[2], slot[3] + ((None, i), (None, 1))))
                                              for i in range(len(xs))), 0))
            return R(('it', 'list', tuple(('slot', slot[1], slot[2], slot[3] + ((None, i),)) for i in range(len(xs))), 0))
        if n in ('drain',):
            r = E.deref(st, a[1]) if len(a) > 1 else None
            if r is None or r[0] == 'agg' and r[2] and r[2].endswith('RangeFull'):
                if put(()):
                    return R(('it', 'list', xs, 0))
            return None
        if n in ('len', 'count') and np != 'iter::Iterator::count':
            return R(cint(len(xs)))
        if n == 'is_empty':
            return R(cbool(not xs))
        if n == 'push' or n == 'push_back':
            return R(UNIT) if put(xs + (E.full(st, a[1]),)) else None
        if n == 'push_front':
            return R(UNIT) if put((E.full(st, a[1]),) + xs) else None
        if n in ('pop', 'pop_back', 'pop_front'):
            if not xs:
                return R(NONE)
            x, ys = (xs[0], xs[1:]) if n == 'pop_front' else (xs[-1], xs[:-1])
            return R(some(x)) if put(ys) else None
        if n == 'clear':
            return R(UNIT) if put(()) else None
        if n == 'split_at':
            k = E.deref(st, a[1])
            if k[0] == 'const' and k[2] <= len(xs):
                return R(tup(arr(xs[:k[2]]), arr(xs[k[2]:])))
            return None
        if n in ('split_off',):
            k = E.deref(st, a[1])
            if k[0] == 'const' and k[2] <= len(xs) and put(xs[:k[2]]):
                return R(arr(xs[k[2]:]))
            return None
        if n == 'insert' and ismap:
            k, val = E.full(st, a[1]), E.full(st, a[2])
            i = self.mapidx(E, st, xs, k)
            if i is None:
                return R(NONE) if put(xs + (tup(k, val),)) else None
            return R(some(xs[i][4][1])) if put(xs[:i] + (tup(xs[i][4][0], val),) + xs[i + 1:]) else None
        if n == 'entry' and ismap and slot is not None:
            x = ('agg', 'entry', None, None, (E.full(st, a[1]), ('slotref',) + slot))
            ids = [i for i in E.F.xadts if i.endswith('::Entry') and i.split('::')[0] == np.split('::')[0]]
            if len(ids) != 1:
                return None
            i = self.mapidx(E, st, xs, x[4][0])
            return R(('agg', 'adt', ids[0], E.F.vindex(ids[0], 'Vacant' if i is None else 'Occupied'), (x,)))
        if ismap and n in ('get', 'get_mut', 'contains_key', 'remove', 'swap_remove', 'shift_remove'):
            i = self.mapidx(E, st, xs, E.full(st, a[1]))
            if n == 'contains_key':
                return R(cbool(i is not None))
            if i is None:
                return R(NONE)
            if 'remove' in n:
                ys = list(xs)
                x = ys.pop(i)
                if n in ('swap_remove',) and i < len(ys):
                    ys = ys[:i] + [ys[-1]] + ys[i:-1]
                return R(some(x[4][1])) if put(tuple(ys)) else None
            return R(some(ref(i, (None, 1))))
        if n in ('remove', 'swap_remove', 'get', 'get_mut', 'index', 'index_mut', 'truncate') and not ismap:
            k = E.deref(st, a[1])
            if k[0] == 'agg' and k[1] == 'adt' and k[2].split('::')[-1] in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive'):
                b = [E.deref(st, z) for z in k[4]]
                nm = k[2].split('::')[-1]
                if any(z[0] != 'const' for z in b[:2]):
                    return None
                lo = b[0][2] if nm in ('Range', 'RangeFrom', 'RangeInclusive') else 0
                hi = {'Range': lambda: b[1][2], 'RangeTo': lambda: b[0][2], 'RangeInclusive': lambda: b[1][2] + 1}.get(
                    nm, lambda: len(xs))()
                if n in ('get',):
                    return R(some(arr(xs[lo:hi])) if lo <= hi <= len(xs) else NONE)
                return R(arr(xs[lo:hi])) if n == 'index' and lo <= hi <= len(xs) else None
            if k[0] != 'const':
                # an unknown index: in bounds at any position, or out of bounds
                if n in ('get', 'get_mut') or n in ('swap_remove', 'remove') and 'VecDeque' in np:
                    pass
                return self.unknown_index(E, st, c, xs, k, n, put)
            i = k[2]
            if n == 'truncate':
                return R(UNIT) if put(xs[:i]) else None
            inb = 0 <= i < len(xs)
            if n in ('get', 'get_mut'):
                return R(some(ref(i)) if inb else NONE)
            if not inb:
                return []
            if n in ('index', 'index_mut'):
                return R(ref(i))
            ys = list(xs)
            x = ys.pop(i)
            if n == 'swap_remove' and i < len(ys):
                ys = ys[:i] + [ys[-1]] + ys[i:-1]
            return R(x) if put(tuple(ys)) else None
        if n in ('first', 'last', 'first_mut', 'last_mut', 'front', 'back', 'front_mut', 'back_mut') and not np.startswith('iter::'):
            if not xs:
                return R(NONE)
            return R(some(ref(0 if n.startswith(('first', 'front')) else len(xs) - 1)))
        if n in ('split_first', 'split_last'):
            if not xs:
                return R(NONE)
            return R(some(tup(xs[0], arr(xs[1:])) if n == 'split_first' else tup(xs[-1], arr(xs[:-1]))))
        if n in ('split_first_mut', 'split_last_mut') and slot is not None:
            if not xs:
                return R(NONE)
            at = [('slot', slot[1], slot[2], slot[3] + ((None, i),)) for i in range(len(xs))]
            return R(some(tup(at[0], arr(at[1:])) if n == 'split_first_mut' else tup(at[-1], arr(at[:-1]))))
        if n in ('reserve', 'shrink_to_fit', 'truncate') or n == 'make_contiguous':
            return R(UNIT)
        if n == 'reverse' and slot is not None:
            return R(UNIT) if put(tuple(reversed(xs))) else None
        if n in ('retain', 'retain_mut') and slot is not None:
            return retain(E, st, (slot, a[1], ismap, xs, ()), c.ret, c.line, c.site)
        return None

    def unknown_index(self, E, st, c, xs, k, n, put):
        return None

    def entry_call(self, E, st, c, n, v, a, R):
        key, sl = v[4][0], v[4][1][1:]
        xs = E.load(st, sl)[4]
        i = self.mapidx(E, st, xs, key)
        vs = lambda j: ('slot', sl[1], sl[2], sl[3] + ((None, j), (None, 1)))
        if n in ('or_insert', 'or_default', 'or_insert_with', 'insert_entry'):
            if i is not None:
                return R(vs(i))
            if n == 'or_insert_with':
                return E.invoke(st, a[1], [], ('k', 'conc_entry', (key, sl), c.ret), c.line, c.site)
            x = E.full(st, a[1]) if n == 'or_insert' else arr(())
            E.store(st, sl, arr(xs + (tup(key, x),)))
            return R(vs(len(xs)))
        if n == 'insert':
            if i is None:
                E.store(st, sl, arr(xs + (tup(key, E.full(st, a[1])),)))
                return R(vs(len(xs)))
            return None
        if n == 'key':
            return R(key)
        if n in ('get', 'get_mut', 'into_mut') and i is not None:
            return R(vs(i))
        return None

    def collect(self, E, st, it, dst, ret, ity=None):
        kind, inner = 'coll', dst
        if dst[0] == 'adt' and dst[1] in E.F.adts and ity:
            inner = dst + (ity,)
        if dst[0] == 'adt' and dst[1] == RES:
            kind, inner = 'res', dst[2][0]
        elif dst[0] == 'adt' and dst[1] == OPT:
            kind, inner = 'opt', dst[2][0]
        return loop_pull(E, st, it, 'conc_item', (kind, inner, ()), ret)

    def from_iters(self, E, adt, ity, acc):
        """The impls which take the items: pairs are taken by impls for pairs."""
        ims = [im for im in E.F.by_trait.get('core::iter::traits::collect::FromIterator', ()) if im['selfty'][0] == 'adt' and im['selfty'][1] == adt]
        pair = ity[0] == 'tuple' if ity and ity[0] not in ('alias', 'param', 'k') else acc[0][:2] == ('agg', 'tuple') if acc else None
        if pair is None or len(ims) < 2:
            return ims
        return [im for im in ims if len(im['targty']) > 1 and (im['targty'][1][0] == 'tuple') == pair] or ims

    def collected(self, E, st, kind, inner, acc, ret):
        wrap = {'coll': None, 'res': 'wrap_ok', 'opt': 'wrap_some'}[kind]
        K = ('k', wrap, None, ret) if wrap else ret
        if inner[0] == 'adt' and inner[1] in E.F.adts:
            ity = inner[3] if len(inner) > 3 else None
            for im in self.from_iters(E, inner[1], ity, acc):
                if im['selfty'][0] == 'adt' and im['selfty'][1] == inner[1]:
                    fid = [x['id'] for x in im['items'] if x['name'] == 'from_iter'][0]
                    m = {}
                    E.F.unify(im['selfty'], inner, m)
                    if ity and ity[0] not in ('alias', 'param', 'k'):
                        E.F.unify(im['targty'][1], ity, m)
                    return E.enter(st, fid, tuple(sorted(m.items())), [('it', 'list', acc, 0)], K, 0)
        nm = inner[1].split('::')[-1] if inner[0] == 'adt' else ''
        if nm == 'String':
            ts = ()
            for x in acc:
                ts += self.toks_of(E, st, x)
            return E.resume(st, K, ('toks', merge(ts)))
        if nm in MAPT:
            out = []
            for x in acc:
                i = self.mapidx(E, st, tuple(out), x[4][0])
                if i is None:
                    out.append(x)
                else:
                    out[i] = tup(out[i][4][0], x[4][1])
            acc = tuple(out)
        return E.resume(st, K, arr(acc))


def retain(E, st, d, ret, line, site):
    slot, f, ismap, todo, kept = d
    if not todo:
        E.store(st, slot, arr(kept))
        return E.resume(st, ret, UNIT)
    return E.invoke(st, f, list(todo[0][4]) if ismap else [todo[0]], ('k', 'conc_retain', (d, line, site), ret), line, site)


@cont('conc_retain')
def k_retain(E, st, data, ret, v):
    (slot, f, ismap, todo, kept), line, site = data
    out = []
    v = E.deref(st, v)
    for b in (0, 1):
        s = st.copy()
        if E.assume(s, v, [b], True, frozenset([0, 1])):
            out += retain(E, s, (slot, f, ismap, todo[1:], kept + todo[:1] if b else kept), ret, line, site)
    return out


@cont('conc_user')
def k_user(E, st, n, ret, v):
    x = E.full(st, st.env[('user', n)])
    del st.env[('user', n)]
    return E.resume(st, ret, tup(v, ('it', 'user', x)))


@cont('conc_item')
def k_item(E, st, d, ret, v):
    kind, inner, acc = d
    opt, it = v[4]
    if opt == NONE:
        return E.H.collected(E, st, kind, inner, acc, ret)
    item = E.full(st, opt[4][0])
    if kind == 'coll':
        return loop_pull(E, st, it, 'conc_item', (kind, inner, acc + (item,)), ret)
    out = []
    for s, vi in E.split(st, item, RES if kind == 'res' else OPT):
        good = vi == (0 if kind == 'res' else 1)
        if good:
            out += loop_pull(E, s, it, 'conc_item', (kind, inner, acc + (E.full(s, E.payload(s, item, vi)),)), ret)
        else:
            out += E.resume(s, ret, err(E.payload(s, item, 1)) if kind == 'res' else NONE)
    return out


@cont('conc_extend')
def k_ext(E, st, d, ret, v):
    tgt, acc, ismap = d
    opt, it = v[4]
    if opt == NONE:
        E.store(st, tgt, arr(acc))
        return E.resume(st, ret, UNIT)
    x = E.full(st, opt[4][0])
    if ismap:
        i = E.H.mapidx(E, st, acc, x[4][0])
        acc = acc + (x,) if i is None else acc[:i] + (tup(acc[i][4][0], x[4][1]),) + acc[i + 1:]
    else:
        acc = acc + (x,)
    return loop_pull(E, st, it, 'conc_extend', (tgt, acc, ismap), ret)


@cont('conc_text')
def k_ext_text(E, st, tgt, ret, v):
    opt, it = v[4]
    if opt == NONE:
        return E.resume(st, ret, UNIT)
    E.store(st, tgt, ('toks', merge(E.H.toks_of(E, st, tgt) + E.H.toks_of(E, st, opt[4][0]))))
    return loop_pull(E, st, it, 'conc_text', tgt, ret)


@cont('conc_into')
def k_into(E, st, tgt, ret, v):
    it = as_iter(E, st, v)
    x = E.deref(st, tgt)
    if not isarr(x) or not concrete(it):
        return E.resume(st, ret, TOP)
    return loop_pull(E, st, it, 'conc_extend', (tgt, x[4], False), ret)


@cont('conc_entry')
def k_entry(E, st, d, ret, v):
    key, sl = d
    xs = E.load(st, sl)[4]
    E.store(st, sl, arr(xs + (tup(key, E.full(st, v)),)))
    return E.resume(st, ret, ('slot', sl[1], sl[2], sl[3] + ((None, len(xs)), (None, 1))))
