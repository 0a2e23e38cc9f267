"""Loads the JSON facts of all crates into one program with interned types."""
import json, os, re


def norm_path(p):
    """Normalises a visible definition path: drops generic arguments and the std facade."""
    out, depth, i = [], 0, 0
    # keep `<impl X>` segments, drop `::<...>` turbofish
    while i < len(p):
        if p.startswith('::<impl ', i) or (i == 0 and p.startswith('<impl ')):
            j, d = i, 0
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            seg = p[i:j + 1]
            seg = seg.replace('<impl [T]>', 'impl').replace('<impl str>', 'impl')
            seg = re.sub(r'<impl (\w+)>', r'impl', seg)
            out.append(seg)
            i = j + 1
            continue
        if p.startswith('::<', i):
            j, d = i + 2, 0
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    s = ''.join(out)
    for pre in ('std::', 'core::', 'alloc::'):
        if s.startswith(pre):
            s = s[len(pre):]
    return s


def tysize(t):
    return 1 + sum(tysize(x) for x in t if isinstance(x, tuple))


class Facts:
    def __init__(self, directory, crates):
        self.dir = directory
        self.fns, self.adts, self.xadts = {}, {}, {}
        self.impls, self.traits, self.consts = [], {}, {}
        self.crate_of = {}
        self._intern = {}
        for c in crates:
            with open(os.path.join(directory, c + '.json')) as fh:
                d = json.load(fh)
            T = self._types(d['types'])
            for a in d['adts']:
                a['generics'] = [g for g in a['generics'] if not g.startswith("'")]
                for v in a['variants']:
                    for f in v['fields']:
                        f['ty'] = T[f['t']]
                a['crate'] = c
                self.adts[a['id']] = a
            for a in d['xadts']:
                self.xadts.setdefault(a['id'], a)
            for im in d['impls']:
                im['selfty'] = T[im['self']]
                im['targty'] = tuple(T[x] if isinstance(x, int) else ('k', x) for x in im['targs'])
                im['crate'] = c
                im['predty'] = [(a, tuple(T[x] if isinstance(x, int) else ('k', x) for x in b), T[t]) for a, b, t in im['preds']]
                for it in im['items']:
                    if it.get('ty') is not None:
                        it['tyv'] = T[it['ty']]
                self.impls.append(im)
            for t in d['traits']:
                t['crate'] = c
                self.traits[t['id']] = t
            for f in d['fns']:
                f['T'] = T
                f['crate'] = c
                f['lty'] = [T[x] for x in f['locals']]
                self.fns[f['id']] = f
            for f in d['consts']:
                f['T'] = T
                f['crate'] = c
                f['lty'] = [T[x] for x in f['locals']]
                self.consts[f['id']] = f
        self.impl_of_fn = {}
        self.by_trait = {}
        for im in self.impls:
            for it in im['items']:
                self.impl_of_fn[it['id']] = im
            if im['traitid']:
                self.by_trait.setdefault(im['traitid'], []).append(im)
        self._live = {}
        self._joins = {}

    # ---- types
    def _types(self, js):
        out = [None] * len(js)

        def get(i):
            if isinstance(i, str):
                return ('k', i)
            if out[i] is None:
                t = js[i]
                k = t['k']
                if k == 'adt':
                    r = ('adt', t['def'], tuple(get(a) for a in t['args']))
                elif k == 'ref':
                    r = ('ref', t['mut'], get(t['t']))
                elif k == 'ptr':
                    r = ('ptr', t['mut'], get(t['t']))
                elif k == 'slice':
                    r = ('slice', get(t['t']))
                elif k == 'array':
                    r = ('array', get(t['t']), t['n'])
                elif k == 'tuple':
                    r = ('tuple', tuple(get(a) for a in t['args']))
                elif k == 'fndef':
                    r = ('fndef', t['def'], tuple(get(a) for a in t['args']), t['path'], t['trait'])
                elif k == 'closure':
                    r = ('closure', t['def'], tuple(get(a) for a in t['args']))
                elif k == 'param':
                    r = ('param', t['name'])
                elif k == 'alias' and 'def' in t:
                    r = ('alias', t['def'], tuple(get(a) for a in t['args']))
                elif k == 'dyn':
                    r = ('dyn', t['s'])
                else:
                    r = ('prim', t['s'])
                out[i] = self._intern.setdefault(r, r)
            return out[i]
        for i in range(len(js)):
            get(i)
        return out

    def subst(self, t, s):
        if not s:
            return t
        k = t[0]
        if k == 'param':
            return s.get(t[1], t)
        if k == 'adt':
            r = ('adt', t[1], tuple(self.subst(a, s) for a in t[2]))
        elif k in ('ref', 'ptr'):
            r = (k, t[1], self.subst(t[2], s))
        elif k == 'slice':
            r = ('slice', self.subst(t[1], s))
        elif k == 'array':
            r = ('array', self.subst(t[1], s), t[2])
        elif k == 'tuple':
            r = ('tuple', tuple(self.subst(a, s) for a in t[1]))
        elif k == 'fndef':
            r = ('fndef', t[1], tuple(self.subst(a, s) for a in t[2]), t[3], t[4])
        elif k == 'closure':
            r = ('closure', t[1], tuple(self.subst(a, s) for a in t[2]))
        elif k == 'alias':
            r = self.normalize(('alias', t[1], tuple(self.subst(a, s) for a in t[2])))
        else:
            return t
        return self._intern.setdefault(r, r)

    def normalize(self, t):
        """Resolves `<T as Trait>::Item` for workspace impls."""
        if t[0] != 'alias':
            return t
        trait = t[1].rsplit('::', 1)[0]
        name = t[1].rsplit('::', 1)[1]
        for im in self.by_trait.get(trait, ()):
            m = {}
            if t[2] and self.unify(im['selfty'], t[2][0], m):
                for it in im['items']:
                    if it['kind'] == 'type' and it['name'] == name:
                        for a, b in zip(im['targty'][1:], t[2][1:]):
                            self.unify(a, b, m)
                        self.infer(im, m)
                        return self.subst(it['tyv'], m)
        if name == 'Item' and trait.endswith('::Iterator') and t[2] and t[2][0][0] == 'alias' and t[2][0][1].endswith('IntoIterator::IntoIter'):
            x = t[2][0]
            return self.normalize(('alias', x[1].rsplit('::', 1)[0] + '::Item', x[2]))
        if name == 'Item' and trait.endswith('::Iterator') and t[2] and t[2][0][0] == 'adt':
            n, a = t[2][0][1].split('::')[-1], t[2][0][2]
            if n == 'Fuse' and a:
                return self.normalize(('alias', t[1], (a[0],)))
            if n == 'IntoIter' and a:
                a = [x for x in a if x[-1:] != ('Global',) and not (x[0] == 'adt' and x[1].endswith('::Global'))]
                return a[0] if len(a) == 1 else ('tuple', tuple(a)) if len(a) == 2 else t
        if name == 'Item' and trait.endswith('IntoIterator') and t[2] and t[2][0][0] in ('adt', 'ref'):
            x = t[2][0]
            r = None
            if x[0] == 'ref':
                r, x = ('ref', x[1]), x[2]
            if x[0] == 'adt' and x[1].split('::')[-1] in ('Vec', 'Option', 'VecDeque') and x[2]:
                e = x[2][0]
            elif x[0] in ('slice', 'array'):
                e = x[1]
            else:
                return t
            return r + (e,) if r else e
        return t

    def unify(self, pat, t, m):
        if pat[0] == 'param':
            if pat[1] in m:
                return m[pat[1]] == t
            m[pat[1]] = t
            return True
        if t[0] == 'param' and pat[0] != 'param':
            return False
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k == 'adt' or k == 'alias':
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and \
                all(self.unify(a, b, m) for a, b in zip(pat[2], t[2]))
        if k in ('ref', 'ptr'):
            return pat[1] == t[1] and self.unify(pat[2], t[2], m)
        if k in ('slice', 'array'):
            return self.unify(pat[1], t[1], m)
        if k == 'tuple':
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, m) for a, b in zip(pat[1], t[1]))
        return pat == t

    def find_impl(self, traitid, selfty, targs=None):
        """targs: full trait args including Self."""
        best = None
        for im in self.by_trait.get(traitid, ()):
            m = {}
            if not self.unify(im['selfty'], selfty, m):
                continue
            if targs is not None and len(im['targty']) == len(targs):
                if not all(self.unify(a, b, m) for a, b in zip(im['targty'][1:], targs[1:])):
                    continue
            elif targs is not None and len(im['targty']) > 1:
                continue
            w = (len(m), sum(tysize(x) for x in m.values()))
            if best is None or w < best[2]:
                best = (im, m, w)           # the more specific of two matching impls
        if best:
            self.infer(best[0], best[1])
        return best and best[:2]

    def infer(self, im, m):
        """The parameters of an impl which only its bounds name: `I: Iterator<Item = T>`."""
        for a, b, t in im['predty']:
            x = self.subst(('alias', a, b), m)
            if x[0] != 'alias':
                self.unify(t, x, m)

    # ---- misc
    def tstr(self, t):
        k = t[0]
        if k == 'adt':
            n = t[1].split('::')[-1]
            return n + ('<%s>' % ', '.join(map(self.tstr, t[2])) if t[2] else '')
        if k == 'ref':
            return '&' + ('mut ' if t[1] else '') + self.tstr(t[2])
        if k == 'slice':
            return '[%s]' % self.tstr(t[1])
        if k == 'array':
            return '[%s; _]' % self.tstr(t[1])
        if k == 'tuple':
            return '(%s)' % ', '.join(map(self.tstr, t[1]))
        if k in ('param', 'prim', 'dyn', 'k'):
            return str(t[1])
        if k == 'alias':
            return '<%s>::%s' % (', '.join(map(self.tstr, t[2])), t[1].split('::')[-1])
        return k + ':' + str(t[1]).split('::')[-1]

    def adt(self, d):
        return self.adts.get(d) or self.xadts.get(d)

    def nvariants(self, d):
        a = self.adt(d)
        return len(a['variants']) if a else None

    def vname(self, d, vi):
        a = self.adt(d)
        return a['variants'][vi]['name'] if a and vi is not None else '?'

    def vindex(self, d, name):
        for i, v in enumerate(self.adt(d)['variants']):
            if v['name'] == name:
                return i
        raise KeyError((d, name))

    def fnname(self, fid):
        f = self.fns.get(fid)
        if not f:
            return fid
        im = self.impl_of_fn.get(fid)
        if im:
            t = self.tstr(im['selfty'])
            if im['trait']:
                tr = im['trait'].split('::')[-1]
                if len(im['targty']) > 1:
                    tr += '<%s>' % ', '.join(map(self.tstr, im['targty'][1:]))
                return '<%s as %s>::%s' % (t, tr, f['name'])
            return '%s::%s' % (t, f['name'])
        if f['kind'] == 'Closure':
            return self.fnname(f['parent']) + '::{closure}'
        return f['path']

    # ---- liveness of locals (per block entry), and locals that are mutably borrowed
    def liveness(self, fn):
        key = fn['id']
        if key in self._live:
            return self._live[key]
        blocks = fn['blocks']
        n = len(blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]
        borrowed = set()

        def rd(place, u, d):
            if place[0] not in d:
                u.add(place[0])
            for p in place[1:]:
                if isinstance(p, list) and p[0] == 'i' and p[1] not in d:
                    u.add(p[1])

        def rdop(o, u, d):
            if o[0] in 'cm':
                rd(o[1], u, d)

        def wr(place, u, d):
            if len(place) == 1:
                d.add(place[0])
            else:
                rd(place, u, d)
        for i, b in enumerate(blocks):
            u, d = use[i], dfn[i]
            for s in b['s']:
                if s[0] == '=':
                    r = s[2]
                    if r[0] == 'use':
                        rdop(r[1], u, d)
                    elif r[0] == 'ref':
                        rd(r[2], u, d)
                        if r[1] and not any(p == '*' for p in r[2][1:]):
                            borrowed.add(r[2][0])
                    elif r[0] == 'rawptr':
                        rd(r[1], u, d)
                    elif r[0] == 'cast':
                        rdop(r[2], u, d)
                    elif r[0] == 'bin':
                        rdop(r[2], u, d)
                        rdop(r[3], u, d)
                    elif r[0] in ('un',):
                        rdop(r[2], u, d)
                    elif r[0] == 'repeat':
                        rdop(r[1], u, d)
                    elif r[0] == 'discr':
                        rd(r[1], u, d)
                    elif r[0] == 'agg':
                        for o in r[2]:
                            rdop(o, u, d)
                    wr(s[1], u, d)
                elif s[0] == 'setd':
                    rd(s[1], u, d)
            t = b['t']
            k = t[0]
            if k == 'goto':
                succ[i] = [t[1]]
            elif k == 'switch':
                rdop(t[1], u, d)
                succ[i] = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop':
                ty = fn['lty'][t[1][0]] if len(t[1]) == 1 else ('k',)
                if ty[0] == 'adt' and self.find_impl('core::ops::drop::Drop', ty):
                    rd(t[1], u, d)
                succ[i] = [t[2]]
            elif k == 'call':
                if 'op' in t[1]:
                    rdop(t[1]['op'], u, d)
                for a in t[2]:
                    rdop(a, u, d)
                wr(t[3], u, d)
                if t[4] is not None:
                    succ[i] = [t[4]]
            elif k == 'assert':
                rdop(t[1], u, d)
                for o in t[4]:
                    rdop(o, u, d)
                succ[i] = [t[5]]
            elif k == 'return':
                if 0 not in d:
                    u.add(0)
        live = [set(use[i]) for i in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                nw = use[i] | (o - dfn[i])
                if nw != live[i]:
                    live[i] = nw
                    changed = True
        r = (live, borrowed, succ)
        self._live[key] = r
        return r

    def joins(self, fn):
        """The blocks where paths meet (every loop has one), and the entry."""
        key = fn['id']
        if key not in self._joins:
            n = {}
            for ss in self.liveness(fn)[2]:
                for s in ss:
                    n[s] = n.get(s, 0) + 1
            self._joins[key] = frozenset({0} | {b for b, k in n.items() if k > 1})
        return self._joins[key]
